"""Runs the contracts stated over bits (vf/bits.py): generates and decides their obligations, reports, writes evidence, replays."""
import os, sys, time, json
from . import bits, concrete
from .cast import TU, ParseError

class Unit:
    """one function (or harness) under contract; prove() yields (tag, label, holds, info)"""
    def __init__(s, name, prove, runner=None, bounded=None, must=True):
        s.name, s.prove, s.runner, s.bounded, s.must = name, prove, runner, bounded, must

def job(u):
    def f():
        t = time.time(); obls = []; err = None
        bits.reset()
        try:
            for tag, label, ok, info in u.prove(): obls.append((tag, label, '', bool(ok), info if not ok else '', ''))
            obls.append(('safe', 'every access stays inside the objects of the contract', '', True, '', ''))
        except bits.Fault as e: obls.append(('safe', 'every access stays inside the objects of the contract', '', False, str(e), ''))
        except (bits.Unsupported, ParseError) as e: err = 'Unsupported: %s' % e
        return {'error': err, 'obls': obls, 'used': set(), 'trusted': set(), 'wall': time.time() - t, 'time': 0, 'queries': 0, 'loops': 0}
    return f

def decide(units, limit, check):
    res = {}
    check.run_jobs([check.Job(u.name, job(u), limit) for u in units], lambda k, v: res.__setitem__(k, v))
    return res

def harvest(tus):
    chars, ints, strs = concrete.harvest(tus, [n for t in tus for n, f in t.funcs.items() if not (f.file or '').startswith('/usr')])
    return concrete.Dict(chars, set(ints), strs)

def finish(a, prop, seed, units, res, t0, back, check, fallback=None, extra=None, level='proof'):
    """units: in the order of reporting; fallback(name) -> True if a failed contract is not needed for the property"""
    viol = []
    failed = [u for u in units if u.must and (res[u.name]['error'] or any(not o[3] for o in res[u.name]['obls']))]
    t_end = time.time() + (150 if a.tier == 'quick' else 1200)
    done = {}
    for u in failed:
        v = res[u.name]
        rel = [o for o in v['obls'] if not o[3]]
        if v['error']: rel.append(('undecided', 'all obligations of %s can be generated' % u.name, '', False, v['error'], ''))
        rec = {'function': u.name, 'label': rel[0][1], 'obligations': [dict(tag=o[0], name=o[1], where=o[2], info=o[4], scenario=o[5]) for o in rel], 'case': None, 'must': True}
        mk = u.runner
        if mk is not None:
            hit = any(r['case'] is not None for r in viol)
            key = getattr(mk, 'key', id(mk))
            if key in done: got = done[key]
            else:
                got = {}
                dl = min(t_end, time.time() + (10 if hit else 90 if a.tier == 'quick' else 600))
                mkr = mk(a.repo, check.scratch(a.repo), seed)
                def stop(): return 'case' in got.get('hit', {})
                def on(key_, r):
                    if 'case' in r.get('hit', {}): got.setdefault('hit', r['hit'])
                    got['tried'] = got.get('tried', 0) + r.get('tried', 0)
                    if r.get('error') or r.get('hit', {}).get('error'): got['err'] = r.get('error') or r['hit']['error']
                    return []
                def jf(w):
                    def f():
                        h, t = concrete.search(mkr, prop, 1000000 * w, 500000, dl, 400)
                        return {'hit': h or {}, 'tried': t}
                    return check.Job(w, f, max(5, dl - time.time()) + 25)
                try: check.run_jobs_until([jf(w) for w in range(check.WORKERS)], on, stop)
                except Exception as e: got['err'] = repr(e)
                done[key] = got
            rec['tried'] = got.get('tried', 0)
            if 'case' in got.get('hit', {}):
                h = got['hit']; r = mk(a.repo, check.scratch(a.repo), seed)()
                rec.update(case=r.case(h['case']), kind=h['kind'], violated=h['labels'], details=h['details'], index=h['case'], seed=seed)
            elif got.get('err'): rec['search_error'] = got['err']
        viol.append(rec)
    if any(r['case'] is not None for r in viol): viol = [r for r in viol if r['case'] is not None]
    kf = check.known_findings(prop); code = 0
    for f in viol:
        k = [x for x in kf if x['function'] == f['function']]
        for x in k: print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
        if not k: code = 1
    check.report(a, prop, viol, kf)
    for u in units:
        v = res[u.name]; bad = [o for o in v['obls'] if not o[3]]
        if a.v or bad or v['error']: print('  %-60s %5d obligations, %d failed, %.1fs%s%s' % (u.name, len(v['obls']), len(bad), v['wall'], '' if u.must else ' [not relied on]', ' ' + v['error'] if v['error'] else ''))
    obl = sum(len(res[u.name]['obls']) for u in units); dis = sum(1 for u in units for o in res[u.name]['obls'] if o[3])
    pr = [u for u in units if not u.bounded]; bd = [u for u in units if u.bounded]
    po = sum(len(res[u.name]['obls']) for u in pr); pd = sum(1 for u in pr for o in res[u.name]['obls'] if o[3])
    cov = dict(obligations=po, discharged=pd, checker_cmd='python3-vt /verif/check.py %s' % prop,
        trusted_base=['clang -ast-dump (front end)', 'vf/bits.py (symbolic execution of the AST, normal form over GF(2))'] + back,
        functions_under_contract=[u.name for u in pr],
        bounded=[dict(contract=u.name, bound=u.bounded, obligations=len(res[u.name]['obls']), held=sum(1 for o in res[u.name]['obls'] if o[3])) for u in bd],
        failed=[dict(function=u.name, tag=o[0], name=o[1], info=str(o[4])[:200]) for u in units for o in res[u.name]['obls'] if not o[3]][:50],
        undecided=[dict(function=u.name, why=res[u.name]['error']) for u in units if res[u.name]['error']],
        solver_queries=0, solver_s=0, replays_tried=sum(f.get('tried', 0) for f in viol),
        per_function=[dict(function=u.name, obligations=len(res[u.name]['obls']), discharged=sum(1 for o in res[u.name]['obls'] if o[3]), seconds=round(res[u.name]['wall'], 2)) for u in units])
    cov.update(extra or {})
    from . import assumptions
    ev = dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=seed, level=level, coverage=cov, assumptions=assumptions.of(prop, []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(check.HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(check.HERE, 'evidence', prop + '.json'), 'w') as h: json.dump(ev, h, indent=1)
    if not code: print('property %s holds: %d contracts, %d obligations discharged%s, %.1fs' % (prop, len(pr), pd, ', %d more within stated bounds' % (dis - pd) if bd else '', time.time() - t0))
    return code

def replay(a, f, mk, check):
    try:
        mkr = mk(a.repo, check.scratch(a.repo), f.get('seed', 1))
        st, v = concrete.guarded(lambda: {'fail': mkr().attempt(f['case'], f['property'])}, 60)
    finally: check.cleanup()
    print('replayed on %s: %s %s' % (a.repo, st, v))
    bad = st in ('crash', 'hang') or (v and v.get('fail'))
    print('REPRODUCED' if bad else 'not reproduced')
    return 1 if bad else 0
