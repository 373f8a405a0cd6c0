#!/usr/bin/env python3-vt
"""one.py [--repo DIR] [-l LEVEL] FUNCTION...: verifies the named contracts and prints every undischarged obligation"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(20000)
import check
from vf.contract import *
check.load()
a = sys.argv[1:]; repo = '/repo'; level = 1; ban = set()
while a and a[0].startswith('-'):
    if a[0] == '--repo': repo = a[1]
    if a[0] == '-l': level = int(a[1])
    if a[0] == '-b': ban.add(a[1])
    a = a[2:]
cfg = Cfg(repo)
cfg.contracts.update(check.private_aliases(cfg))
for n in a:
    v = cfg.contracts[n].run(cfg, ban, deadline=time.time() + 600, tier=level)
    print('%s: %d obligations, %d failed, %.1fs, %d queries %s uses %s' % (n, len(v['obls']), sum(1 for o in v['obls'] if not o[3]), v['wall'], v['queries'], v['error'] or '', sorted(v['used'])))
    for o in v['obls']:
        if not o[3]: print('   ', o[0], '|', o[1], '|', o[2], '|', o[5], '|', o[4][:300])
