#!/usr/bin/env python3-vt
"""check.py PROPERTY [--repo DIR] [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE                                   replay a recorded violation against /repo"""
import sys, os, re, time, json, signal, select, argparse, hashlib, copy, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vf import contract, concrete, build
from vf.contract import CONTRACTS, Cfg
from vf.cast import ParseError

MODULES = ['strview', 'strbuf', 'strnum', 'access']
SAFETY = {'S01', 'B01', 'N01', 'N04'}
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))

class Job:
    def __init__(s, key, fn, limit): s.key, s.fn, s.limit = key, fn, limit

def run_jobs(jobs, on_done, workers=WORKERS):
    """forks one child per job; on_done(key, result) may return further jobs"""
    import pickle
    jobs = list(jobs); live = {}
    while jobs or live:
        while jobs and len(live) < workers:
            j = jobs.pop(0)
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try: v = j.fn()
                    except BaseException as e:
                        import traceback
                        v = {'error': 'internal: ' + traceback.format_exc(limit=-5), 'obls': [], 'used': set(), 'trusted': set(), 'wall': 0, 'time': 0, 'queries': 0, 'loops': 0}
                    data = pickle.dumps(v)
                    while data: data = data[os.write(w, data):]
                finally: os._exit(0)
            os.close(w)
            live[r] = [j, pid, time.time(), b'']
        rl, _, _ = select.select(list(live), [], [], 0.2)
        now = time.time()
        done = []
        for r in list(live):
            L = live[r]
            if r in rl:
                b = os.read(r, 1 << 20)
                if b: L[3] += b; continue
                done.append((r, True)); continue
            if now - L[2] > L[0].limit:
                os.kill(L[1], signal.SIGKILL); done.append((r, False))
        for r, ok in done:
            L = live.pop(r); os.close(r); os.waitpid(L[1], 0)
            try: v = pickle.loads(L[3]) if ok else None
            except Exception: v = None
            if v is None: v = {'error': 'Budget: the verifier did not finish in %ds' % L[0].limit if not ok else 'the verifier process died', 'obls': [], 'used': set(), 'trusted': set(), 'wall': now - L[2], 'time': 0, 'queries': 0, 'loops': 0}
            jobs += on_done(L[0].key, v) or []

def load(): 
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'contracts', m + '.py')): importlib.import_module('contracts.' + m)

def private_aliases(cfg):
    """private contracts whose function was renamed: every static function of the same type is tried"""
    out = {}
    for name, c in list(CONTRACTS.items()):
        if c.extra.get('resolve') and any(t == c.tu for t in cfg.tus):
            a = copy.copy(c); a.name = c.extra['resolve'](cfg); out[name] = a
        if not c.private: continue
        tu = cfg.tu(c.tu)
        if name in tu.funcs: continue
        want = c.extra.get('sig')
        for fn, f in tu.funcs.items():
            if fn in CONTRACTS or not f.static or (f.file or '').startswith('/usr'): continue
            if len(f.params) == len(c.params) and all(kind_matches(k, t) for (_, k), (_, _, t) in zip(c.params, f.params)) and ret_matches(c.ret, f.ret):
                a = copy.copy(c); a.name = fn; a.alias = name
                out[fn] = a
    return out

def kind_matches(k, t):
    r = repr(t)
    if k == 'view': return r == 'struct strview_t'
    if k in ('view*', 'view*!'): return r == 'struct strview_t*'
    if k.endswith('*?') and k not in ('char*?',): return r == repr(contract.KINDS[k[:-2]]) + '*'
    if k in ('cstr', 'char*?') or k.startswith('wmem?'): return r in ('s8*',)
    if k.startswith('rmem'): return r in ('void*', 's8*', 'u8*')
    return {'float': 'f32', 'double': 'f64', 'ldouble': 'f80', 'int': 's32', 'bool': 'bool', 'char': 's8', 'size': 'u64', 'uint': 'u32', 'llong': 's64', 'ullong': 'u64'}.get(k) == r
def ret_matches(k, t):
    return {'float': 'f32', 'double': 'f64', 'ldouble': 'f80', 'void': 'void', 'view': 'struct strview_t', 'int': 's32', 'bool': 'bool', 'char': 's8'}.get(k) == repr(t)

def verify(cfg, targets, tier, prop, quick, t_end):
    """verifies targets and everything they rely on; returns {name: result}, banned"""
    contracts = cfg.contracts
    banned = set()
    for n, c in contracts.items():
        if c.name not in cfg.tu(c.tu).funcs: banned.add(n)
    results = {}
    rounds = 0
    todo = [t for t in targets if t not in banned]
    missing = [t for t in targets if t in banned]
    per = 240 if tier == 'quick' else 600
    while todo:
        rounds += 1
        queued = set(todo)
        parts = {}
        def mk(n, level=1):
            """one job per scenario of the function"""
            sc = contracts[n].scenario_list()
            parts[n, level] = [None] * len(sc)
            def job(i):
                def f():
                    c = contracts[n]
                    lim = min(per * (c.budget or 1), max(30, t_end - time.time() - 20))
                    return c.run(cfg, banned, deadline=time.time() + lim, tier=level, only=i)
                return Job((n, level, i), f, min(per * (contracts[n].budget or 1), max(40, t_end - time.time())) + 30)
            return [job(i) for i in range(len(sc))]
        def done(key, v):
            n, level, i = key
            ps = parts[n, level]; ps[i] = v
            if any(p is None for p in ps): return []
            return finished((n, level), contract.merge(n, ps))
        def finished(key, v):
            n, level = key
            v['level'] = level
            bad = [o for o in v['obls'] if not o[3]]
            more = []
            if level == 2 and n in results and (bad or v['error']) and not results[n]['error'] and v['error']: return more
            results[n] = v
            for u in v['used']:
                if u not in queued and u not in results: queued.add(u); more += mk(u)
            return more
        order = sorted(todo, key=lambda n: -(contracts[n].budget or 1))
        run_jobs([j for n in order for j in mk(n)], done)
        # a failing input ends the matter; otherwise the failed functions get a second, more thorough attempt
        failed = [n for n, v in results.items() if v.get('level') == 1 and (v['error'] or any(not o[3] for o in v['obls']))]
        hits = quick([(n, results[n]) for n in failed if n in targets], reached(results, failed, targets))
        if hits: return results, banned, missing, hits
        again = [n for n in failed if not contracts[n].private and not str(results[n]['error']).startswith('Unsupported')]
        if again and time.time() < t_end - 200: run_jobs([j for n in again for j in mk(n, 2)], done)
        newban = set()
        for n, v in results.items():
            if n in banned: continue
            c = contracts[n]
            bad = [o for o in v['obls'] if not o[3]]
            if v['error'] or (bad if c.private else [o for o in bad if o[0].startswith(('post', 'vac'))]): newban.add(n)
        newban |= cyclic(results) - banned
        banned |= newban
        todo = [n for n, v in results.items() if v['used'] & banned]
        if t_end - time.time() < 60:
            # what was shown from a contract that does not hold is not shown
            for n in todo: results[n]['error'] = results[n]['error'] or 'Budget: relies on a contract that was not discharged (%s); no time left to do without it' % ' '.join(sorted(results[n]['used'] & banned))
            break
    return results, banned, missing, []

def reached(results, failed, targets):
    """[(target, undischarged obligations of functions it relies on)]"""
    out = []
    for t in targets:
        if t in failed or t not in results: continue
        seen, st = set(), list(results[t]['used'])
        while st:
            m = st.pop()
            if m not in seen: seen.add(m); st += list(results[m]['used']) if m in results else []
        bad = [o for m in sorted(seen) if m in failed for o in results[m]['obls'] if not o[3]]
        if bad: out.append((t, bad))
    return out

def cyclic(results):
    """functions that rely on their own contract through others"""
    out = set()
    for n in results:
        seen, st = set(), list(results[n]['used'])
        while st:
            m = st.pop()
            if m == n: out.add(n); break
            if m in seen: continue
            seen.add(m)
            if m in results: st += list(results[m]['used'])
    return out

def relevant(prop, o):
    tag = o[0]
    if tag.startswith('post:'): return prop in tag[5:].split()
    if tag in ('safe', 'term'): return prop in SAFETY
    return tag == 'vac'

def scratch(repo):
    d = os.path.join('/tmp', 'vf-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    load()
    if a.replay: return replay(a)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    prop = a.prop
    special = SPECIAL.get(prop)
    if special: return importlib.import_module(special).main(a, prop, seed)
    return deductive(a, prop, seed)

SPECIAL = {'X01': 'contracts.x01', 'X02': 'contracts.x02', 'X03': 'contracts.x03'}

def deductive(a, prop, seed):
    t0 = time.time()
    t_end = t0 + (420 if a.tier == 'quick' else 5400)
    cfg = Cfg(a.repo)
    targets = [n for n, c in CONTRACTS.items() if prop in c.props]
    if a.only: targets = a.only.split(',')
    if not targets: print('no contract carries property', prop); return 2
    try:
        for t in sorted({CONTRACTS[n].tu for n in targets} | {d for n in targets for d in contract.DEPS[CONTRACTS[n].tu]}): cfg.tu(t)
        for n in targets:
            for sp in CONTRACTS[n].extra.get('steps', ()):
                if sp != 16: cfg.tu('%s_g%d' % (CONTRACTS[n].tu, sp))
    except (ParseError, FileNotFoundError) as e:
        print('cannot read the sources:', e); return 2
    cfg.contracts.update(private_aliases(cfg))
    def rel_of(n, v):
        bad = [o for o in v['obls'] if not o[3]]
        rel = [o for o in bad if relevant(prop, o)]
        if v['error']: rel.append(('undecided', 'all obligations of %s can be generated' % n, '', False, v['error'], ''))
        return rel, bad
    def quick(failed, through):
        todo = [(n, bad, True) for n, bad in through]
        for n, v in failed:
            rel, bad = rel_of(n, v)
            if not rel: rel = bad
            if rel: todo.append((n, rel, True))
        return [r for r in hunt(a, cfg, prop, todo, seed, 45) if r['case'] is not None]
    viol = []
    try:
        results, banned, missing, viol = verify(cfg, targets, a.tier, prop, quick, t_end)
        tv = time.time()
        if not viol:
            failures = []       # (contract, [obligations], must_report)
            for n in targets:
                if n in missing: failures.append((n, [('missing', 'function %s is not in the sources' % n, '', False, '', '')], True)); continue
                rel, bad = rel_of(n, results[n])
                if rel: failures.append((n, rel, True))
                elif any(o[0] in ('safe', 'term') for o in bad): failures.append((n, [o for o in bad if o[0] in ('safe', 'term')], False))
            if failures: viol = investigate(a, cfg, prop, failures, seed, t_end + 200)
    finally: cleanup()
    kf = known_findings(prop)
    code = 0
    seen_kf = set()
    for f in viol:
        k = [x for x in kf if x['function'] == f['function'] and (x.get('label') in (None, f.get('label')))]
        if k:
            for x in k: seen_kf.add(x['what'])
            continue
        code = 1
    for x in sorted(seen_kf): print('KNOWN-FINDING: property=%s %s' % (prop, x))
    fs = report(a, prop, viol, kf)
    write_evidence(a, prop, seed, cfg, targets, results, banned, viol, t0, tv)
    if a.v or code:
        for n in sorted(results):
            v = results[n]; bad = [o for o in v['obls'] if not o[3]]
            print('  %-40s %4d obligations, %d failed, %.1fs%s%s' % (n, len(v['obls']), len(bad), v['wall'], ' [not relied on]' if n in banned else '', ' ' + v['error'] if v['error'] else ''))
            for o in bad[:6]: print('       not discharged: %s | %s | %s | %s' % (o[0], o[1], o[2], o[5]))
    if not code:
        n = sum(len(v['obls']) for v in results.values())
        print('property %s holds: %d functions under contract, %d obligations discharged, %.1fs' % (prop, len(results), sum(1 for v in results.values() for o in v['obls'] if o[3]), time.time() - t0))
    return code

def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get('findings', []) if x['property'] == prop]

def report(a, prop, viol, kf):
    d = os.path.join(HERE, 'replay'); os.makedirs(d, exist_ok=True)
    for f in viol:
        if [x for x in kf if x['function'] == f['function'] and (x.get('label') in (None, f.get('label')))]: continue
        path = os.path.join(d, '%s-%s.json' % (prop, re.sub(r'\W+', '_', f['function'])))
        f = dict(f); f['property'] = prop; f['repo'] = a.repo
        f['replay_cmd'] = 'python3-vt %s/check.py --replay %s' % (HERE, path)
        with open(path, 'w') as h: json.dump(concrete.jsonable(f), h, indent=1, default=str)
        for o in f['obligations'][:4]: print('obligation not discharged: %s: %s (%s) %s' % (o['tag'], o['name'], o['where'], o['scenario']))
        if f.get('case') is not None: print('failing input: %s' % json.dumps(concrete.jsonable(f['case']), default=str)[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if f.get('case') is not None else ' no-failing-input-found'))
    sys.stdout.flush()

def runner_factory(a, cfg, name, prop, seed, hints_ints=()):
    c = cfg.contracts[name]
    tus = [cfg.tu(t) for t in contract.DEPS[c.tu]]
    chars, ints, strs = concrete.harvest(tus, [name])
    d = concrete.Dict(chars, set(ints) | set(hints_ints), strs)
    ub = prop in SAFETY
    cls = c.extra.get('runner') or concrete.Runner
    lib = cls.library(a.repo, c, scratch(a.repo), ub) if hasattr(cls, 'library') else default_lib(a.repo, c, scratch(a.repo), ub)
    def mk():
        import ctypes
        return cls(c, ctypes.CDLL(lib), d, seed)
    return mk

def default_lib(repo, c, d, ub):
    out = os.path.join(d, 'lib%s%d.so' % (c.tu, ub))
    if not os.path.exists(out):
        srcs = {'strview': ['strview.c'], 'strbuf': ['strbuf.c', 'strview.c', 'test/prnf.c'], 'strnum': ['strnum.c', 'strview.c']}[c.tu]
        build.compile_lib(repo, out, srcs, [f.replace('/repo', repo) for f in contract.SOURCES[c.tu][1]], ub)
    return out

def cleanup():
    import shutil
    d = os.path.join('/tmp', 'vf-%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)

def investigate(a, cfg, prop, failures, seed, t_end):
    """looks for a concrete failing input for every function with an undischarged obligation"""
    out = hunt(a, cfg, prop, failures, seed, max(30, min(200 if a.tier == 'quick' else 1200, t_end - time.time())))
    for rec in out:
        if a.v and rec.get('search_error'): print(rec['search_error'])
    return [r for r in out if r['case'] is not None or r['must']]

def hunt(a, cfg, prop, todo, seed, budget):
    """runs all functions of todo side by side on generated inputs; some seconds after the first failing input the rest is given up"""
    import re
    recs = []; mks = {}; got = {}
    for n, rel, must in todo:
        rec = {'function': n, 'label': rel[0][1], 'obligations': [dict(tag=o[0], name=o[1], where=o[2], info=o[4], scenario=o[5]) for o in rel], 'case': None, 'must': must}
        recs.append(rec); got[n] = {'tried': 0}
        if n not in cfg.contracts or n not in cfg.tu(cfg.contracts[n].tu).funcs: continue
        rec['ints'] = sorted({int(x) for o in rel for x in re.findall(r"'(-?\d+)'", o[4] or '') if abs(int(x)) < 2**31})
        try: mks[n] = runner_factory(a, cfg, n, prop, seed, rec['ints'])
        except Exception:
            import traceback
            rec['search_error'] = traceback.format_exc(limit=-3)
    t0 = time.time(); first = []
    def done(key, v):
        g = got[key]
        g['tried'] += v.get('tried', 0)
        h = v.get('hit') or {}
        if 'case' in h and 'hit' not in g: g['hit'] = h; first.append(time.time())
        elif h.get('error') or v.get('error'): g['err'] = h.get('error') or v.get('error')
    def stop(): return first and time.time() > first[0] + 3 or first and len(first) >= len(mks)
    def mkjob(n, base, dl):
        def f():
            h, t = concrete.search(mks[n], prop, base, 500000, dl)
            return {'hit': h or {}, 'tried': t}
        return Job(n, f, max(5, dl - time.time()) + 25)
    # in turns of growing length, every function once per turn and on as many processors as there are
    turn = 0; length = 3.0
    while mks and not first and time.time() < t0 + budget - 1:
        names = list(mks)
        copies = max(1, WORKERS // len(names))
        for k in range(0, len(names), WORKERS):
            dl = min(time.time() + length, t0 + budget)
            if time.time() > dl - .3: break
            run_jobs_until([mkjob(n, 1000000 * (copies * turn + w), dl) for n in names[k:k + WORKERS] for w in range(copies)], done, stop)
            if first and time.time() > first[0] + 3: break
        turn += 1; length *= 2.5
    for rec in recs:
        g = got[rec['function']]; rec['tried'] = g['tried']; h = g.get('hit')
        if h:
            try:
                r = mks[rec['function']]()
                rec['case'] = r.case(h['case']); rec['kind'] = h['kind']; rec['violated'] = h['labels']; rec['details'] = h['details']; rec['index'] = h['case']; rec['seed'] = seed
            except Exception:
                import traceback
                rec['search_error'] = traceback.format_exc(limit=-3)
        elif g.get('err'): rec['search_error'] = g['err']
    return recs

def run_jobs_until(jobs, on_done, stop):
    """as run_jobs, all at once, ended as soon as stop() holds"""
    import pickle
    live = {}
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            try:
                os.close(r)
                try: v = j.fn()
                except BaseException:
                    import traceback
                    v = {'error': traceback.format_exc(limit=-3)}
                data = pickle.dumps(v)
                while data: data = data[os.write(w, data):]
            finally: os._exit(0)
        os.close(w); live[r] = [j, pid, time.time(), b'']
    while live:
        rl, _, _ = select.select(list(live), [], [], 0.2)
        for r in list(live):
            L = live[r]
            fin = False
            if r in rl:
                b = os.read(r, 1 << 20)
                if b: L[3] += b; continue
                fin = True
                try: on_done(L[0].key, pickle.loads(L[3]))
                except Exception: pass
            elif time.time() - L[2] > L[0].limit: fin = True
            if fin or stop():
                try: os.killpg(L[1], signal.SIGKILL)
                except OSError:
                    try: os.kill(L[1], signal.SIGKILL)
                    except OSError: pass
                os.waitpid(L[1], 0); os.close(r); del live[r]

def replay(a):
    f = concrete.unjson(json.load(open(a.replay)))
    if f.get('case') is None:
        print('no failing input is recorded; undischarged obligations:'); print(json.dumps(f['obligations'], indent=1)); return 0
    if f['property'] in SPECIAL: return importlib.import_module(SPECIAL[f['property']]).replay(a, f)
    cfg = Cfg(a.repo)
    cfg.contracts.update(private_aliases(cfg))
    try:
        mk = runner_factory(a, cfg, f['function'], f['property'], f.get('seed', 1), f.get('ints', ()))
        def one():
            r = mk()
            g = concrete.attempt(r, f['case'], f['property'])
            return {'fail': g}
        st, v = concrete.guarded(one, 30)
    finally: cleanup()
    print('replayed on %s: %s %s' % (a.repo, st, v))
    bad = st in ('crash', 'hang') or (v and v.get('fail'))
    print('REPRODUCED' if bad else 'not reproduced')
    return 1 if bad else 0

def write_evidence(a, prop, seed, cfg, targets, results, banned, viol, t0, tv):
    obl = sum(len(v['obls']) for v in results.values())
    dis = sum(1 for v in results.values() for o in v['obls'] if o[3])
    tr = sorted({t for v in results.values() for t in v['trusted']})
    own = {}
    for v in results.values():
        for o in v['obls']: own[o[0]] = own.get(o[0], 0) + 1
    cov = dict(obligations=obl, discharged=dis, checker_cmd='python3-vt /verif/check.py %s' % prop,
        trusted_base=['clang -ast-dump (front end)', 'vf/engine.py + vf/loops.py (verification condition generator)', 'z3 %s (only back end)' % z3v()] + ['model of ' + t for t in tr],
        functions_under_contract=sorted(results), property_functions=sorted(targets), contracts_not_relied_on=sorted(b for b in banned if b in results),
        obligations_by_kind=own, property_postconditions=sum(1 for n in targets if n in results for o in results[n]['obls'] if o[0].startswith('post:') and prop in o[0].split(':')[1].split()),
        failed=[dict(function=n, tag=o[0], name=o[1], where=o[2]) for n, v in results.items() for o in v['obls'] if not o[3]][:50],
        undecided=[dict(function=n, why=v['error']) for n, v in results.items() if v['error']],
        solver_queries=sum(v['queries'] for v in results.values()), solver_s=round(sum(v['time'] for v in results.values()), 2), loops_with_inferred_invariants=sum(v['loops'] for v in results.values()),
        per_function=[dict(function=n, obligations=len(v['obls']), discharged=sum(1 for o in v['obls'] if o[3]), seconds=round(v['wall'], 2)) for n, v in sorted(results.items())],
        replays_tried=sum(f.get('tried', 0) for f in viol))
    from vf import assumptions
    ev = dict(property=prop, tier='thorough' if a.tier == 'thorough' else 'quick', seed=seed, level='proof', coverage=cov, assumptions=assumptions.of(prop, tr), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as h: json.dump(ev, h, indent=1)

def z3v():
    import z3
    return z3.get_version_string()

if __name__ == '__main__':
    try: rc = main()
    finally: cleanup()
    sys.exit(rc)
