#!/usr/bin/env python3-vt
"""scen.py [--repo D] FUNCTION: verifies each scenario in its own process, with times"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(20000)
import check
from vf.contract import *
check.load()
a = sys.argv[1:]; repo = '/repo'
if a and a[0] == '--repo': repo = a[1]; a = a[2:]
cfg = Cfg(repo)
cfg.contracts.update(check.private_aliases(cfg)) if 0 else None
for n in a: cfg.tu(cfg.contracts[n].tu)
cfg.contracts.update(check.private_aliases(cfg))
jobs = []
for n in a:
    for i, sc in enumerate(cfg.contracts[n].scenario_list()):
        jobs.append(check.Job((n, i, str(sc)), (lambda n=n, i=i: cfg.contracts[n].run(cfg, set(), deadline=time.time() + 800, tier=1, only=i)), 850))
def done(k, v):
    print('%s %d %s: %d obligations, %d failed, %.1fs (%.1f solver), %d queries %s' % (*k, len(v['obls']), sum(1 for o in v['obls'] if not o[3]), v['wall'], v['time'], v['queries'], v['error'] or ''), flush=True)
    for o in v['obls']:
        if not o[3]: print('   ', o[0], '|', o[1], '|', o[2], '|', o[4][:300])
check.run_jobs(jobs, done)
