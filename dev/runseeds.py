#!/usr/bin/env python3
"""runseeds.py [id ...]: which planted changes do the checks catch?  (works on scratch copies of /repo)"""
import sys, os, subprocess, json, shutil, time, glob
SD = '/verif/seeded'
for d in sorted(glob.glob(SD + '/*')):
    i = os.path.basename(d)
    if len(sys.argv) > 1 and not any(a in i for a in sys.argv[1:]): continue
    m = json.load(open(d + '/meta.json'))
    r = '/tmp/seedrun-%d' % os.getpid()
    shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('_build'))
    subprocess.run(['git', '-C', r, 'apply', d + '/patch.diff'], check=True)
    t0 = time.time()
    x = subprocess.run(['python3-vt', '/verif/check.py', m['property'], '--repo', r], capture_output=True, text=True)
    v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-30s %s rc=%d %.0fs %s' % (i, m['property'], x.returncode, time.time() - t0, 'MISSED ' + x.stderr[-300:] if not v else '%d violations, %d without input' % (len(v), sum(l.endswith('found') for l in v))), flush=True)
    shutil.rmtree(r)
