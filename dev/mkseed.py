#!/usr/bin/env python3
"""mkseed.py [id ...]: (re)creates /verif/seeded/<id>/ from dev/seeds_*.py and confirms each in /repo (applied, built, tested, demonstrated, undone)"""
import sys, os, subprocess, json, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); SD = os.path.join(HERE, '..', 'seeded')
SEEDS = []
def seed(id, prop, file, edits, demo, needs, breaks, srcs='strview.c strbuf.c strnum.c test/prnf.c', flags='', sh=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits if isinstance(edits, list) else [edits], file=file, demo=demo, needs=needs, breaks=breaks, srcs=srcs, flags=flags, sh=sh))
for f in sorted(glob.glob(HERE + '/seeds_*.py')): exec(open(f).read())
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
gcc -std=gnu99 -g -w -I. -Itest -Iaccessories -DSTRBUF_PROVIDE_PRINTF -DSTRBUF_PROVIDE_PRNF -DSTRBUF_DEFAULT_ALLOCATOR_STDLIB %s -o "$d/demo" "$here/demo.c" %s -lm || exit 3
( cd "$d" && timeout 60 ./demo ); rc=$?
rm -r "$d"
exit $rc
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def main():
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in SEEDS:
        if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]: continue
        assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip(), 'repo dirty'
        d = os.path.join(SD, s['id']); os.makedirs(d, exist_ok=True)
        try:
            for e in s['edits']:
                file, old, new = e if len(e) == 3 else (s['file'],) + tuple(e)
                p = '/repo/' + file; t = open(p).read()
                assert t.count(old) == 1, (s['id'], t.count(old), old)
                open(p, 'w', newline='\r\n' if b'\r\n' in open(p, 'rb').read() else '\n').write(t.replace(old, new))
            open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout)
            open(d + '/demo.c', 'w').write(s['demo'])
            open(d + '/demo.sh', 'w').write(s['sh'] or SH % (s['flags'], s['srcs'])); os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
            b = sh('bash', '/opt/vp/build.sh')
            t = sh('bash', '/opt/vp/test.sh', '/tmp/seed-test.json')
            r = json.load(open('/tmp/seed-test.json'))
            lost = stable - set(r['passed'])
            d1 = sh('bash', d + '/demo.sh', cwd='/repo')
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        sh('bash', '/opt/vp/build.sh')
        d0 = sh('bash', d + '/demo.sh', cwd='/repo')
        ok = b.returncode == 0 and not lost and d1.returncode not in (0, 3) and d0.returncode == 0
        print('%-26s %s build=%d lost=%s demo patched=%d clean=%d %s' % (s['id'], 'OK' if ok else 'BAD', b.returncode, sorted(lost), d1.returncode, d0.returncode, (d0.stderr + d0.stdout)[-300:] if d0.returncode else ''), flush=True)
        if not ok: shutil.rmtree(d)
main()
