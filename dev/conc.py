#!/usr/bin/env python3-vt
"""conc.py PROP|all SECONDS [FN...]: concrete search only (development: on the unchanged tree nothing may be found)"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import check, argparse
from vf import concrete
from vf.contract import CONTRACTS, Cfg
check.load()
repo = os.environ.get('REPO', '/repo')
a = argparse.Namespace(repo=repo, tier='quick', v=True)
cfg = Cfg(repo)
props = sys.argv[1]
for n, c in CONTRACTS.items():
    if c.private or (sys.argv[3:] and n not in sys.argv[3:]): continue
    for p in (c.props if props == 'all' else [props]):
        if p not in c.props: continue
        mk = check.runner_factory(a, cfg, n, p, 1)
        h, t = concrete.search(mk, p, 0, 1000000, time.time() + float(sys.argv[2]))
        print(n, p, t, h if h else '')
        if h and 'case' in h: print(mk().case(h['case']))
        if h: break
check.cleanup()
