"""Function contracts: one specification text, read by the verifier (terms) and by the replayer (concrete values)."""
import time, traceback, z3, itertools
from .sym import *
from . import theory
from .theory import u8, s8, toup
from .engine import Ex, St, Region, OPtr, Fn, Mem, Obl, Budget, ArrMem, ArrV, Undef, ADDR_MAX, PTR_LIM, get_path
from .cast import CT, INT, CHAR, ParseError
from .loops import forall

INT_MAX = 2**31 - 1
INT_MIN = -2**31
VIEW_T = CT('struct', name='strview_t')
CONTRACTS = {}

class V:
    """a view in a specification"""
    __slots__ = ('data', 'size')
    def __init__(s, data, size): s.data, s.size = data, size
    @property
    def end(s): return add(s.data, s.size)
    @property
    def valid(s): return ne(s.data, 0)
    @property
    def invalid(s): return And(eq(s.data, 0), eq(s.size, 0))
    def same(s, o): return And(eq(s.data, o.data), eq(s.size, o.size))
    def __repr__(s): return 'V(%s,%s)' % (s.data, s.size)

INVALID = V(0, 0)

class P:
    """a pointer parameter in a specification: null flag and pointee"""
    __slots__ = ('null', 'v')
    def __init__(s, null, v=None): s.null, s.v = null, v

class NS:
    pass

class Pos:
    kind = 'pos'
    def __init__(s, f, pat=None): s.f, s.pat = f, pat
class Fold:
    kind = 'fold'
    def __init__(s, f, sort, name): s.f, s.sort, s.name = f, sort, name
class Gen:
    kind = 'gen'
    def __init__(s, f): s.f = f

class SX:
    """symbolic context of one contract instance"""
    concrete = False
    def __init__(s, ex, base, mem0=None, mem1=None):
        s.ex, s.base, s.mem0, s.mem1 = ex, base, mem0, mem1
        s.a = NS(); s.n = NS(); s.r = None; s.g = NS()
        s.basefor = None
    def H(s, a):
        return s.base.rd(a) if s.mem0 is None else s.mem0.rd(a)
    def H1(s, a): return s.mem1.rd(a)
    def _b(s, d, n):
        return s.base if s.basefor is None else s.basefor(d, n)
    def IN(s, v, c):
        return s._b(v.data, v.size).IN(v.data, v.size, c)
    def DIFF(s, p, q, n, nocase=False):
        return s.base.DIFF(p, q, n, nocase)
    def PAR(s, a): 
        F = s.base.fold('PAR', a)
        return lambda e: F(Z(I(e)))
    def PARB(s, a):
        F = s.base.fold('PARB', a)
        return lambda e: F(Z(I(e)))
    def RUN(s, kind, p, e): return s.base.RUN(kind, p, e)
    def mark(s, *ts):
        """makes the facts about sequences available at these positions"""
        for t in ts:
            t = Z(I(t)); k = ('mark', t.get_id())
            if k not in s.base.uf: s.base.uf[k] = t; s.ex.th.axiom(s.ex.th.MARK(t))
    def VAL(s, base, p, e): return s.base.VAL(base, p, e)
    # floating point
    def ival(s, p, e): return z3.ToReal(s.base.VAL(10, p, e))
    def FRAC(s, p, e): return s.base.FRAC(p, e)
    def scale(s, x, n): return s.ex.th.mp(x, Z(I(n)))
    @property
    def ideal(s): return s.ex.fmode == 'ideal'
    def fkind(s, v): return v['#f']
    def fis(s, v, x): return And(eq(v['#f'], 0), v['v'] == x)
    def fge0(s, v): return Or(eq(v['#f'], 1), And(eq(v['#f'], 0), v['v'] >= 0))
    def fneg(s, v): return s.ex.float_neg(v)
    def inrange(s, g): return True
    def when(s, c, sane, then): return Implies(c, then())
    def fsame(s, a, b):
        from .floats import fsame
        return fsame(a, b)
    def all(s, lo, hi, f, pat=None):
        p = pat or (lambda k: s.base.H(k))
        return forall(I(lo), I(hi), f, p)
    def ex_(s, lo, hi, f, pat=None):
        p = pat or (lambda k: s.base.H(k))
        return Not(forall(I(lo), I(hi), lambda k: Not(f(k)), p))
    def var(s, name): return fresh_int(name)
    def all1(s, lo, hi, f):
        def pat(k):
            top = s.mem1.log[-1] if s.mem1.log else None
            return top[3].H(k) if top and top[0] == 'h' else s.base.H(k)
        return forall(I(lo), I(hi), f, pat)
    def frame(s, cond):
        """bytes of the caller's memory that satisfy cond are unchanged"""
        if s.applying: return True
        a = fresh_int('frame')
        inreg = Or(*[And(le(r.lo, a), lt(a, add(r.lo, r.n))) for r in s.regions0.values()])
        return Implies(And(inreg, cond(a)), eq(s.H1(a), s.H(a)))
    applying = False

def merge(name, parts):
    """the results of the scenarios of one function"""
    out = dict(name=name, obls=[], used=set(), trusted=set(), error=None, time=0.0, queries=0, loops=0, scen=len(parts), wall=0.0)
    for v in parts:
        out['obls'] += v['obls']; out['used'] |= v['used']; out['trusted'] |= v['trusted']
        for k in ('time', 'queries', 'loops', 'wall'): out[k] += v[k]
        if v['error'] and not out['error']: out['error'] = v['error']
    if not out['obls'] and not out['error']: out['error'] = 'no obligation was generated'
    return out

class Contract:
    def __init__(s, name, params, ret='void', post=None, pre=None, hints=None, props='', private=False, writes=None, tu='strview',
                 scen=None, timeout=None, gen=None, stateful=None, budget=None, **kw):
        s.name, s.params, s.ret, s.post, s.pre, s.hints = name, params, ret, post, pre, hints
        s.props = props.split(); s.private = private; s.writes = writes; s.tu = tu; s.gen = gen
        s.scen = scen; s.timeout = timeout; s.stateful = stateful; s.budget = budget
        s.extra = kw
        CONTRACTS[name] = s

    # ---- scenarios: which pointers are null
    def scenarios(s):
        opts = []
        for pn, k in s.params:
            if k in ('view*', 'cstr') or k.endswith('*?') or k.startswith(('wmem?', 'view[]?')): opts.append([(pn, 'null'), (pn, 'ok')])
        for combo in itertools.product(*opts):
            yield dict(combo)

    # ---- verification: the body against the contract
    def scenario_list(s):
        scs = list(s.scen(s) if s.scen else s.scenarios())
        modes = s.extra.get('arith')            # floating point is decided under each of these semantics
        return [{**sc, 'arith': m} for sc in scs for m in modes] if modes else scs

    def run(s, cfg, banned, fn_name=None, deadline=None, tier=1, only=None):
        """-> dict(obls, used, trusted, error); only: the number of one scenario"""
        parts = []
        for i, sc in enumerate(s.scenario_list()):
            if only is not None and i != only: continue
            parts.append(s.run1(cfg, banned, fn_name, deadline, tier, sc))
            if parts[-1]['error']: break
        return merge(s.name, parts)

    def make(s, cfg, banned, fn_name, sc):
        ex = cfg.make_ex(s.tu)
        ex.banned = set(banned) | {s.name} | ({fn_name} if fn_name else set())
        return ex

    def run1(s, cfg, banned, fn_name, deadline, tier, sc):
        t0 = time.time()
        error = None
        ex = s.make(cfg, banned, fn_name, sc)
        ex.deadline = deadline; ex.tier = tier
        ex.fmode = sc.get('arith')
        ex.th.opaque = bool(s.extra.get('opaque')) and tier < 2
        if 'relevancy' in s.extra: ex.pr.relevancy = s.extra['relevancy']
        ex.merge = bool(s.extra.get('merge')); ex.joins = []
        try:
            s.run_scenario(ex, sc, fn_name or s.name)
        except (Unsupported, Budget, ParseError) as e:
            error = '%s: %s' % (type(e).__name__, e)
        except RecursionError as e:
            error = 'RecursionError'
        except Exception as e:
            error = 'internal: ' + traceback.format_exc(limit=-4)
        scn = ','.join('%s=%s' % kv for kv in sorted(sc.items()) if not str(kv[0]).startswith('_'))
        if error: error += ' [%s]' % scn
        return dict(obls=[(o.tag, o.name, o.where, o.ok, o.info, scn) for o in ex.obls], used=ex.used, trusted=ex.trusted, error=error, time=ex.pr.time, queries=ex.pr.queries, loops=ex.loops, wall=time.time() - t0)

    def bind(s, ex, st, sc, X):
        """fresh symbolic arguments for a scenario; returns C argument values"""
        vs = []
        for pn, k in s.params:
            v = s.bind1(ex, st, sc, X, pn, k)
            vs.append(v)
        return vs

    def bind1(s, ex, st, sc, X, pn, k):
        if k == 'view':
            v = fresh_view(ex, st, pn); setattr(X.a, pn, v)
            return {'data': v.data, 'size': v.size}
        if k in ('view*', 'view*!'):
            if sc.get(pn) == 'null': setattr(X.a, pn, P(True)); return 0
            v = fresh_view(ex, st, pn)
            c = ex.new_cell(st, {'data': v.data, 'size': v.size}, VIEW_T)
            setattr(X.a, pn, P(False, v)); X.g.__dict__[pn] = OPtr(c)
            return OPtr(c)
        if k == 'cstr':
            if sc.get(pn) == 'null': setattr(X.a, pn, INVALID); return 0
            d = z3.Int(pn); n = z3.Int(pn + '_len')
            st.assume(z3.And(d >= 4096, n >= 0, n <= INT_MAX, d + n + 1 <= ADDR_MAX))
            kk = z3.Int('k')
            st.assume(z3.ForAll([kk], z3.Implies(z3.And(d <= kk, kk < d + n), ex.base.H(kk) != 0), patterns=[ex.base.H(kk)]))
            st.assume(ex.base.H(d + n) == 0)
            st.regions['arg_' + pn] = Region(d, n + 1, 'arg')
            ex.cstrs.append((d, n))
            ex.anchors_ptr += [d, d + n]
            v = V(d, n); setattr(X.a, pn, v)
            return d
        if k.endswith('*?'):
            if sc.get(pn) == 'null': setattr(X.a, pn, P(True)); return 0
            t = KINDS[k[:-2]]
            v = ex.fresh(st, t, pn)
            c = ex.new_cell(st, v, t)
            setattr(X.a, pn, P(False, v)); X.g.__dict__[pn] = OPtr(c)
            return OPtr(c)
        if k.startswith('wmem?'):        # writable memory, size given by another parameter (already bound or bound later)
            if sc.get(pn) == 'null': setattr(X.a, pn, 0); return 0
            d = z3.Int(pn); setattr(X.a, pn, d)
            st.assume(z3.And(d >= 4096, d <= ADDR_MAX))
            X.g.__dict__['wm_' + pn] = (d, k.split(':')[1])
            return d
        if k.startswith('view[]'):
            if sc.get(pn) == 'null': setattr(X.a, pn, P(True)); return 0
            ty = CT('array', to=VIEW_T, n=None)
            arr = ex.fresh_array(st, ty, pn)
            arr.n = getattr(X.a, k.split(':')[1])
            c = ex.new_cell(st, arr, ty)
            setattr(X.a, pn, P(False, arr)); X.g.__dict__[pn] = OPtr(c)
            return OPtr(c, (('i', 0),))
        if k.startswith('rmem:'):
            d = z3.Int(pn); setattr(X.a, pn, d)
            st.assume(z3.And(d >= 4096, d <= ADDR_MAX))
            X.g.__dict__['rm_' + pn] = (d, k.split(':')[1])
            return d
        if k in ('ptr', 'ptr?'):
            d = z3.Int(pn); st.assume(z3.And(d >= (0 if k == 'ptr?' else 1), d < ADDR_MAX)); setattr(X.a, pn, d); return d
        if k.startswith('fn:'):
            nm = k[3:]; setattr(X.a, pn, nm); return Fn(nm)
        ty = KINDS.get(k)
        if ty is not None:
            v = ex.fresh(st, ty, pn)
            setattr(X.a, pn, v)
            return v
        raise Unsupported('parameter kind ' + k)

    def run_scenario(s, ex, sc, fn_name):
        fn = ex.func(fn_name)
        if fn is None: raise Unsupported('function %s has no body in the translation unit' % fn_name)
        st = St(); st.mem = Mem(ex.base); st.g = {}
        X = SX(ex, ex.base)
        X.sc = sc
        vs = s.bind(ex, st, sc, X)
        for nm, (d, szp) in [(k[3:], v) for k, v in X.g.__dict__.items() if k.startswith('wm_')]:
            n = getattr(X.a, szp)
            st.assume(z3.And(d + n <= ADDR_MAX))
            for r in st.regions.values(): st.assume(Or(le(add(d, n), r.lo), le(add(r.lo, r.n), d)))
            st.regions['arg_' + nm] = Region(d, n, 'arg', True)
        for nm, (d, szp) in [(k[3:], v) for k, v in X.g.__dict__.items() if k.startswith('rm_')]:
            n = getattr(X.a, szp)
            st.assume(z3.And(d + n <= ADDR_MAX))
            st.regions['arg_' + nm] = Region(d, n, 'arg')
            ex.anchors_ptr += [d, d + n]
        if len(vs) != len(fn.params): raise Unsupported('%s has another number of parameters than its contract' % fn_name)
        for v in X.a.__dict__.values():
            if isinstance(v, P) and isinstance(v.v, V): v = v.v
            if isinstance(v, V) and v is not INVALID: ex.anchors_ptr += [v.data, v.end]; ex.anchors_int.append(v.size)
        if s.pre:
            for c in s.pre(X): st.assume(c)
        if s.hints: ex.hints = list(s.hints(X))
        ex.obls.append(Obl('vac', 'precondition of %s is satisfiable' % s.name, s.name, ex.pr.check(st.pc, 3000) != 'unsat'))
        st0 = st.copy()
        X.regions0 = st0.regions
        res = ex.inline(fn, vs, st, None)
        nret = 0
        for s1, rv in res:
            if not ex.feasible(s1): continue
            nret += 1
            s.check_posts(ex, st0, s1, X, rv, nret)
        ex.obls.append(Obl('vac', 'the end of %s is reachable' % s.name, s.name, nret > 0))

    def fill_new(s, ex, X, s1, rv):
        X.mem1 = s1.mem
        X.st1 = s1
        X.r = to_spec(s.ret, rv)
        for pn, k in s.params:
            p = getattr(X.a, pn)
            if isinstance(p, P) and not p.null and pn in X.g.__dict__:
                o = X.g.__dict__[pn]
                v = get_path(s1.store[o.cell], o.path) if k[:6] != 'view[]' else s1.store[o.cell]
                if k.startswith('view*'): v = V(v['data'], v['size'])
                setattr(X.n, pn, P(False, v))

    def check_posts(s, ex, st0, s1, X, rv, idx):
        s.fill_new(ex, X, s1, rv)
        allp = list(s.post(X)) if s.post else []
        if s.writes is None and s1.mem is not st0.mem:
            a = fresh_int('frame')
            inreg = Or(*[And(le(r.lo, a), lt(a, add(r.lo, r.n))) for r in st0.regions.values()])
            allp.append((s.frame_prop(), 'memory is unchanged', Implies(inreg, eq(s1.mem.rd(a), st0.mem.rd(a)))))
        for props, label, cond in allp:
            c = B(cond)
            ok = prove_post(ex, s1, c)
            info = '' if ok else ex.pr.model(s1.pc, c)
            ex.obls.append(Obl('post:' + props, label, '%s (path %d)' % (s.name, idx), ok, info))

    def frame_prop(s): return 'S01' if s.tu == 'strview' else 'B01' if s.tu == 'strbuf' else 'N03'

    # ---- use of the contract at a call site
    def apply(s, ex, st, vs, node):
        if len(vs) != len(s.params): raise Unsupported('call of %s with other parameters than its contract' % s.name)
        # fork on nullness of symbolic pointers
        todo = [(st, list(vs))]
        for i, (pn, k) in enumerate(s.params):
            if k == 'cstr':
                nxt = []
                for s1, a in todo:
                    p = a[i]
                    if isinstance(p, int): nxt.append((s1, a)); continue
                    for s2, b in ex.branch(s1, eq(p, 0)):
                        a2 = list(a)
                        if b: a2[i] = 0
                        nxt.append((s2, a2))
                todo = nxt
        out = []
        for s1, a in todo: out += s.apply1(ex, s1, a, node)
        return out

    def apply1(s, ex, st, vs, node):
        from .libc import base_for, find_len
        X = SX(ex, ex.base)
        X.applying = True
        if st.mem.log:
            mem = st.mem
            X.mem0 = mem
            X.basefor = lambda d, n: base_for(ex, st, mem, d, n)
        X.sc = {}
        for (pn, k), v in zip(s.params, vs): s.view_arg(ex, st, X, pn, k, v, node, vs)
        if s.pre:
            for c in s.pre(X): ex.oblige(st, c, 'safe', 'precondition of ' + s.name, node)
        st = st
        # effects
        for pn, o in list(X.g.__dict__.items()):
            if not isinstance(o, OPtr): continue
            k = dict(s.params)[pn]
            ty = ex.path_type(o)
            if k[:6] == 'view[]': raise Unsupported('array argument of a contract call')
            v = ex.fresh(st, ty if ty is not None else VIEW_T, pn + "'")
            ex.store_lv(st, ('c', o.cell, o.path, ty), v, node)
        if s.writes is not None:
            for d, n in s.writes(X):
                if isinstance(n, int) and n == 0: continue
                r = ex.access(st, d, n, True, node)
                ex.note_write(st, d, n, r, node)
                st.mem = st.mem.upd('h', I(d), I(n), ex.th.new_base())
        rt = RETK[s.ret]
        rv = ex.fresh(st, rt, 'ret_' + s.name) if rt is not None else None
        s.fill_new(ex, X, st, rv)
        if s.extra.get('pure') and not st.mem.log:
            # a function of its arguments and of memory nothing has written to: its results have names
            got = flat([X.r] + [getattr(X.n, pn).v for pn, k in s.params if k.startswith('view*') and hasattr(X.n, pn)])
            args = flat([getattr(X.a, pn) for pn, k in s.params])
            for f, v in zip(pure_fns(s.name, len(args), len(got)), got): st.assume(eq(v, f(*args)))
        for props, label, cond in (s.post(X) if s.post else []): st.assume(cond)
        if s.ret in ('view',): st.assume(And(le(0, X.r.size)))
        return [(st, rv)]

    def view_arg(s, ex, st, X, pn, k, v, node, vs):
        from .libc import find_len
        if k == 'view':
            w = V(v['data'], v['size'])
            ex.oblige(st, And(ge(w.size, 0), Implies(eq(w.data, 0), eq(w.size, 0))), 'safe', 'argument %s of %s is a well formed view' % (pn, s.name), node)
            ex.access(st, w.data, w.size, False, node)
            setattr(X.a, pn, w)
        elif k in ('view*', 'view*!'):
            if isinstance(v, int):
                if v != 0: raise Unsupported('pointer argument')
                if k == 'view*!': ex.oblige(st, False, 'safe', 'argument %s of %s is not null' % (pn, s.name), node)
                setattr(X.a, pn, P(True)); return
            if not isinstance(v, OPtr): raise Unsupported('pointer argument')
            c = ex.load(st, ('c', v.cell, v.path, VIEW_T), node)
            w = V(c['data'], c['size'])
            ex.oblige(st, And(ge(w.size, 0), Implies(eq(w.data, 0), eq(w.size, 0))), 'safe', 'argument %s of %s is a well formed view' % (pn, s.name), node)
            ex.access(st, w.data, w.size, False, node)
            setattr(X.a, pn, P(False, w)); X.g.__dict__[pn] = v
        elif k == 'cstr':
            if isinstance(v, int) and v == 0: setattr(X.a, pn, INVALID); return
            n = find_len(ex, st, v, node)
            if n is None:
                ex.oblige(st, False, 'safe', 'argument %s of %s is a known zero terminated string' % (pn, s.name), node)
                n = fresh_int('len'); st.assume(ge(n, 0))
            setattr(X.a, pn, V(v, n))
        elif k.endswith('*?'):
            if isinstance(v, int):
                if v != 0: raise Unsupported('pointer argument')
                setattr(X.a, pn, P(True)); return
            if not isinstance(v, OPtr): raise Unsupported('pointer argument')
            ty = ex.path_type(v)
            if ty is None or ty != KINDS[k[:-2]]: raise Unsupported('pointer argument of another type')
            if isinstance(get_path(st.store[v.cell], v.path), Undef): setattr(X.a, pn, P(False, ex.fresh(st, ty, pn)))       # an output that is not set yet
            else: setattr(X.a, pn, P(False, ex.load(st, ('c', v.cell, v.path, ex.path_type(v)), node)))
            X.g.__dict__[pn] = v
        elif k.startswith('wmem?'):
            setattr(X.a, pn, v)
        elif k.startswith('rmem:'):
            setattr(X.a, pn, v)
            n = vs[[q for q, _ in s.params].index(k.split(':')[1])]
            if not (isinstance(v, int) and v == 0): ex.access(st, v, n, False, node)
        elif k.startswith('fn:'):
            if not (isinstance(v, Fn) and v.name == k[3:]): raise Unsupported('function argument')
            setattr(X.a, pn, v.name)
        elif isinstance(v, (OPtr, Fn, dict)): raise Unsupported('argument of contract call')
        else: setattr(X.a, pn, v)

def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, P): x = INVALID if x.null else x.v
        if isinstance(x, V): out += [Z(I(x.data)), Z(I(x.size))]
        elif isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x)): out.append(z3.If(Z(B(x)), z3.IntVal(1), z3.IntVal(0)))
        else: out.append(Z(I(x)))
    return out
def pure_fns(name, na, nr):
    s = z3.IntSort()
    return [z3.Function('PF%d_%s' % (i, name), *([s] * (na + 1))) for i in range(nr)]

def prove_post(ex, st, c, depth=0):
    if c is True: return True
    if z3.is_expr(c) and z3.is_and(c): return all(prove_post(ex, st, g, depth) for g in c.children())
    if ex.deadline and time.time() > ex.deadline: raise Budget('time budget of this function is used up')
    if not ex.joins: return ex.pr.valid(st.pc, c, 20000)
    return cases(ex, st.pc, c, [g for g in ex.joins if any(mentions(p, g) for p in st.pc)], 0)

def cases(ex, pc, c, js, depth):
    """by cases over which of the joined states this is"""
    if ex.deadline and time.time() > ex.deadline: raise Budget('time budget of this function is used up')
    r = ex.pr.check(list(pc) + [Not(c)], 4000 if js and depth < 6 else 20000)
    if r != 'unknown' or not js: return r == 'unsat'
    g = js[0]
    out = True
    for h in (g, z3.Not(g)):
        pc2 = []
        for p in pc:
            q = z3.substitute(p, (g, z3.BoolVal(h is g))) if mentions(p, g) else p
            if q is not p: q = z3.simplify(q)
            if not z3.is_true(q): pc2.append(q)
        if ex.pr.check(pc2, 500) == 'unsat': continue
        c2 = B(z3.simplify(z3.substitute(c, (g, z3.BoolVal(h is g)))))
        if isinstance(c2, bool):
            if not c2 and ex.pr.check(pc2, 10000) != 'unsat': return False
            continue
        if not cases(ex, pc2, c2, js[1:], depth + 1): return False
    return True

_ment = {}
def mentions(p, g):
    k = (p.get_id(), g.get_id())
    v = _ment.get(k)
    if v is None or not v[1].eq(p):
        seen = set(); st = [p]; r = False
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if i == g.get_id(): r = True; break
            st += x.children()
        v = _ment[k] = (r, p, g)
    return v[0]

_I = lambda b: CT('int', abs(b), b < 0)
_F = {'float': CT('float', 32), 'double': CT('float', 64), 'ldouble': CT('float', 80)}
KINDS = {**_F, 'uchar': _I(8), 'schar': _I(-8), 'ushort': _I(16), 'short': _I(-16), 'ulong': _I(64), 'long': _I(-64), 'ullong': _I(64), 'llong': _I(-64), 'int': INT, 'bool': CT('bool', 1, False), 'char': CHAR, 'size': CT('int', 64, False), 'uint': CT('int', 32, False)}
RETK = {**KINDS, 'void': None, 'view': VIEW_T, 'int': INT, 'bool': KINDS['bool'], 'char': CHAR, 'ptr': CT('ptr', 64, to=CHAR), 'uint': KINDS['uint']}

def to_spec(kind, rv):
    if kind == 'void': return None
    if kind == 'view': return V(rv['data'], rv['size'])
    if kind == 'bool': return B(rv)
    if isinstance(rv, OPtr): raise Unsupported('returned object pointer')
    return rv

def fresh_view(ex, st, pn, region=True):
    d = z3.Int(pn + '_data'); n = z3.Int(pn + '_size')
    st.assume(z3.And(n >= 0, n <= INT_MAX, z3.Implies(d == 0, n == 0), z3.Or(d == 0, z3.And(d >= 4096, d + n <= ADDR_MAX))))
    if region: st.regions['arg_' + pn] = Region(d, n, 'arg')
    return V(d, n)

class Cfg:
    """sources, parsed once per process"""
    def __init__(s, repo='/repo', step=None):
        s.repo = repo
        s.tus = {}
        s.contracts = dict(CONTRACTS)
        s.mk = {}
    def tu(s, name):
        from .cast import TU
        if name not in s.tus:
            path, flags = SOURCES[name]
            s.tus[name] = TU(s.repo + '/' + path, [f.replace('/repo', s.repo) for f in flags])
        return s.tus[name]
    def make_ex(s, tu):
        ex = Ex([s.tu(t) for t in DEPS[tu]], contracts=s.contracts)
        if tu in s.mk: s.mk[tu](ex)
        return ex

SOURCES = {
    'strview': ('strview.c', []),
    'strbuf': ('strbuf.c', ['-DSTRBUF_PROVIDE_PRINTF', '-DSTRBUF_PROVIDE_PRNF', '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB', '-I/repo/test', '-I/repo']),
    'strnum': ('strnum.c', ['-I/repo']),
}
DEPS = {'strview': ['strview'], 'strbuf': ['strbuf', 'strview'], 'strnum': ['strnum', 'strview']}
