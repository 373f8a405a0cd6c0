"""Loop rule: havoc what the body changes, infer an inductive invariant (Houdini over generic candidates
built from the loop's own variables and the contract's spec predicates), prove termination by a ranking function."""
import z3, time, itertools
from fractions import Fraction
from .sym import *
from .engine import OPtr, Fn, ArrMem, ArrV, Undef, Obl, Mem, get_path, set_path, Budget
from .cast import INT, CT

MAX_UNROLL = 300
import os
DBG = os.environ.get('VF_DBG')

def one_iter(ex, s, cond, body, inc):
    """(back, exit, ret): states after one evaluation of the condition and, if true, the body"""
    env = s.env
    backs, exits, rets = [], [], []
    def back(s2):
        """an iteration after which the condition is certainly false leaves the loop"""
        s2.env = env
        if cond is None or is_literal(cond) or not flag_set(s, s2): backs.append(s2); return
        rec, ex.record, nob, w = ex.record, False, len(ex.obls), ex.wset
        try: again = any(b and ex.feasible(x) for x, b in ex.cond(cond, s2.copy()))
        except Unsupported: again = True
        finally:
            ex.record = rec; ex.wset = w
            del ex.obls[nob:]
        if again: backs.append(s2); return
        for s3, b in ex.cond(cond, s2):
            if not b: s3.env = env; exits.append(s3)
    for s1, b in (ex.cond(cond, s) if cond is not None else [(s, True)]):
        if not b:
            s1.env = env; exits.append(s1); continue
        for s2, o in ex.exec(body, s1):
            if o in ('next', 'continue'):
                s2.env = env
                if inc is not None:
                    for s3, _ in ex.eval(inc, s2): back(s3)
                else: back(s2)
            elif o == 'break':
                s2.env = env; exits.append(s2)
            else: rets.append((s2, o))
    return backs, exits, rets

def flag_set(a, b):
    """some variable of the loop has become a constant"""
    for c, x in b.store.items():
        if isinstance(x, (bool, int)) and c in a.store and not same(a.store[c], x): return True
    return False

def is_literal(c):
    if c is None: return True
    while c.kind in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr'): c = c.inner[-1]
    return c.kind in ('IntegerLiteral', 'CharacterLiteral', 'CXXBoolLiteralExpr')

def try_unroll(ex, st, cond, body, inc):
    """full unrolling when the condition is a constant at every iteration"""
    if is_literal(cond): return None
    nob = len(ex.obls)
    cur = [st.copy()]
    out = []
    rec = ex.record
    wset = ex.wset
    # cheap test first: is the condition constant at the start?
    ex.record = False; ex.wset = None
    try:
        rs = ex.eval(cond, st.copy())
        ok = len(rs) == 1 and isinstance(B(rs[0][1]) if not isinstance(rs[0][1], (OPtr, Fn)) and not isinstance(rs[0][1], dict) else None, bool)
    finally:
        ex.record = rec; ex.wset = wset
    if not ok: return None
    for it in range(MAX_UNROLL):
        nxt = []
        for s in cur:
            rs = ex.eval(cond, s)
            if len(rs) != 1 or not isinstance(B(rs[0][1]), bool):
                del ex.obls[nob:]
                return None
            s1, c = rs[0]
            if not B(c): out.append((s1, 'next')); continue
            env = s1.env
            for s2, o in ex.exec(body, s1):
                if o in ('next', 'continue'):
                    s2.env = env
                    if inc is not None:
                        for s3, _ in ex.eval(inc, s2):
                            s3.env = env; nxt.append(s3)
                    else: nxt.append(s2)
                elif o == 'break': s2.env = env; out.append((s2, 'next'))
                else: out.append((s2, o))
        cur = nxt
        if len(cur) > 4096: break
        if not cur: return out
    del ex.obls[nob:]
    return None

def walk(v, path=()):
    if isinstance(v, dict):
        if '#f' in v: yield path, v, 'float'; return
        for k, x in v.items():
            if k == 'va': continue
            yield from walk(x, path + (k,))
    elif isinstance(v, ArrV): yield path, v, 'arr'
    elif isinstance(v, (OPtr, Fn, ArrMem, Undef)) or v is None: yield path, v, 'opaque'
    else: yield path, v, 'scalar'

def same(a, b):
    if a is b: return True
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return int(a) == int(b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, OPtr) and isinstance(b, OPtr): return a.cell == b.cell and a.path == b.path
    if isinstance(a, Fraction) and isinstance(b, Fraction): return a == b
    if isinstance(a, Fn) and isinstance(b, Fn): return a.name == b.name
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        return all(same(x, b.leaves[p]) for p, x in a.leaves.items())
    if isinstance(a, dict) and isinstance(b, dict) and '#f' in a: return all(same(a[k], b[k]) for k in a)
    return False

def changed_leaves(head, back, cells):
    out = {}
    for c in cells:
        a, b = head.store.get(c), back.store.get(c)
        if a is b: continue
        if b is None: out[(c, ())] = 'gone'; continue
        la = {p: (v, k) for p, v, k in walk(a)}
        lb = {p: (v, k) for p, v, k in walk(b)}
        for p in set(la) | set(lb):
            if p not in la or p not in lb:
                q = p
                out[(c, q)] = 'shape'; continue
            if not same(la[p][0], lb[p][0]): out[(c, p)] = 'v'
    return out

def leaf_type(ex, c, p):
    t = ex.ctypes.get(c)
    for x in p:
        if t is None: return None
        if t.k == 'struct':
            t = dict(ex.fields(t)).get(x)
        else: return None
    return t

def havoc(ex, st, M, regions):
    s = st.copy()
    for (c, p) in sorted(M, key=repr):
        t = leaf_type(ex, c, p)
        cur = get_path(s.store[c], p)
        if isinstance(cur, ArrV):
            lv = {q: z3.Array(fresh_name('arr'), z3.IntSort(), z3.IntSort()) for q in cur.leaves}
            new = ArrV(cur.elem, lv, cur.n)
        elif isinstance(cur, (OPtr, Fn, ArrMem)):
            ex.unsupported('object pointer %s is changed by a loop' % (p,))
        elif p and p[-1] == 'idx' and t is None:
            new = fresh_int('vaidx'); s.assume(z3.And(new >= 0, new < 2**31))
        elif p and p[-1] == 'dead' and t is None:
            new = fresh_bool('dead')
        else:
            if t is None: ex.unsupported('type of a changed object')
            if t.k == 'va_list': ex.unsupported('va_list changed in a loop')
            new = ex.fresh(s, t, 'L%d%s' % (c, '.'.join(map(str, p))))
        s.store[c] = set_path(s.store[c], p, new, create=True) if p else new
    if regions:
        for r in regions:
            hb = ex.th.new_base()
            s.mem = s.mem.upd('h', r.lo, r.n, hb)
            s.g = dict(s.g); s.g['havoc'] = s.g.get('havoc', ()) + ((r, hb, st.mem),)
    return s

class Leaf:
    def __init__(s, c, p, t, v0): s.c, s.p, s.t, s.v0 = c, p, t, v0
    def get(s, st): return get_path(st.store[s.c], s.p)
    def __repr__(s): return 'c%d%s' % (s.c, ''.join('.' + str(x) for x in s.p))

def scope_scalars(ex, st, Mset):
    """values of unmodified integer / pointer variables in scope"""
    ints, ptrs = [], []
    seen = set()
    def put(lst, v):
        if isinstance(v, bool): return
        k = v if isinstance(v, int) else ('z', v.get_id())
        if k in seen: return
        seen.add(k); lst.append(v)
    for did, c in st.env.items():
        if c not in st.store: continue
        v = st.store[c]
        if isinstance(v, ArrMem): put(ptrs, v.addr); continue
        if isinstance(v, OPtr) and v.cell in st.store and not v.path: c = v.cell; v = st.store[c]
        if isinstance(v, dict) and 'data' in v and 'size' in v:
            if (c, ('data',)) not in Mset and (c, ('size',)) not in Mset and not isinstance(v['data'], (OPtr, Undef)) and not isinstance(v['size'], Undef):
                put(ptrs, v['data']); put(ptrs, add(v['data'], v['size'])); put(ints, v['size'])
            continue
        for p, x, k in walk(v):
            if k != 'scalar' or (c, p) in Mset: continue
            t = leaf_type(ex, c, p)
            if t is None or isinstance(x, bool) or (isinstance(x, z3.ExprRef) and z3.is_bool(x)): continue
            if t.k == 'int' and t.bits >= 32: put(ints, x)
            elif t.k == 'ptr' and not (isinstance(x, int) and x == 0): put(ptrs, x)
    for b in st.blocks.values():
        if b['alive'] and b['hdr'] and 'size' in st.store[b['cell']]:
            h = st.store[b['cell']]
            put(ptrs, add(b['addr'], b['hsize']))
            if (b['cell'], ('size',)) not in Mset and not isinstance(h['size'], Undef):
                put(ints, h['size']); put(ptrs, add(add(b['addr'], b['hsize']), h['size']))
    return ints[:10], ptrs[:10]

class Cand:
    __slots__ = ('name', 'fn', 'kind', 'mark')
    def __init__(s, name, fn, kind='lin', mark=None): s.name, s.fn, s.kind, s.mark = name, fn, kind, mark
    def assume(s, ex, st):
        st.assume(s.fn(st))
        if s.mark is not None: st.assume(ex.th.MARK(Z(I(s.mark(st)))))

def forall(lo, hi, f, pat):
    l = simp(sub(hi, lo))
    if isinstance(l, int):
        if l <= 0: return True
        if l <= 2: return And(*[f(add(lo, i)) for i in range(l)])
    k = z3.Int('k')
    body = f(k)
    if body is True: return True
    pats = pat(k) if pat else []
    pats = [p for p in (pats if isinstance(pats, (list, tuple)) else [pats])]
    g = z3.Implies(z3.And(Z(lo) <= k, k < Z(hi)), Z(B(body)))
    return z3.ForAll([k], g, patterns=pats) if pats else z3.ForAll([k], g)

def cond_atoms(ex, cond):
    """conjuncts of the loop condition (pure ones), with < weakened to <= and != dropped to its two orderings"""
    out = []
    def go(n):
        while n.kind in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr') and (n.kind != 'ImplicitCastExpr' or n.j.get('castKind') in ('IntegralToBoolean', 'PointerToBoolean', 'IntegralCast')):
            n = n.inner[-1]
        if n.kind == 'BinaryOperator' and n.j['opcode'] == '&&':
            go(n.inner[0]); go(n.inner[1]); return
        if not pure(n): return
        if n.kind == 'BinaryOperator' and n.j['opcode'] in ('<', '>', '<=', '>=', '!='):
            op = n.j['opcode']
            L, R = n.inner
            def ev(s, o):
                a, b = value(ex, L, s), value(ex, R, s)
                return cmp(o, a, b)
            for o in ({'<': ['<', '<='], '>': ['>', '>='], '<=': ['<='], '>=': ['>='], '!=': ['<=', '>=']}[op]):
                out.append(('%s@%s' % (o, n.line), lambda s, o=o, ev=ev: ev(s, o)))
        else:
            out.append(('expr@%s' % n.line, lambda s, n=n: B(value(ex, n, s))))
    if cond is not None: go(cond)
    return out[:6]

def assigned_consts(n):
    """integer constants assigned to variables by a statement: {declaration id: set}"""
    out = {}
    def const(x):
        while x.kind in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr', 'CStyleCastExpr'): x = x.inner[-1]
        if x.kind == 'UnaryOperator' and x.j['opcode'] == '-':
            v = const(x.inner[0]); return None if v is None else -v
        return int(x.j['value']) if x.kind in ('IntegerLiteral', 'CharacterLiteral') else None
    def go(x):
        if x.kind == 'BinaryOperator' and x.j['opcode'] == '=':
            l = x.inner[0]
            while l.kind == 'ParenExpr': l = l.inner[0]
            v = const(x.inner[1])
            if v is not None and l.kind == 'DeclRefExpr': out.setdefault(l.j['referencedDecl']['id'], set()).add(v)
        for c in x.inner: go(c)
    if n is not None: go(n)
    return out

def pure(n):
    if n.kind in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr', 'VAArgExpr'): return False
    if n.kind == 'UnaryOperator' and n.j['opcode'] in ('++', '--'): return False
    if n.kind == 'BinaryOperator' and n.j['opcode'] == '=': return False
    return all(pure(c) for c in n.inner)

def value(ex, n, s):
    rec, w = ex.record, ex.wset
    ex.record = False; ex.wset = None
    try: rs = ex.eval(n, s.copy())
    finally: ex.record = rec; ex.wset = w
    if len(rs) != 1 or isinstance(rs[0][1], (OPtr, Fn, dict)): raise Unsupported('not a pure scalar')
    return rs[0][1]

def gen_cands(ex, st, M, tier, cond=None, body=None):
    Mset = set(M)
    leaves = []
    arrs = []
    for (c, p) in sorted(M, key=repr):
        t = leaf_type(ex, c, p)
        v = get_path(st.store[c], p)
        if isinstance(v, ArrV): arrs.append(Leaf(c, p, t, v)); continue
        if p and p[-1] == 'idx' and t is None: t = INT
        if t is None: continue
        leaves.append(Leaf(c, p, t, v))
    ints = [l for l in leaves if l.t.k == 'int' and not isinstance(l.v0, Undef)]
    ptrs = [l for l in leaves if l.t.k == 'ptr' and not isinstance(l.v0, (Undef, OPtr, Fn))]
    bools = [l for l in leaves if l.t.k == 'bool']
    floats = [l for l in leaves if l.t.k == 'float' and not isinstance(l.v0, Undef)]
    si, sp = scope_scalars(ex, st, Mset)
    ai = dedupe(list(ex.anchors_int) + si)[:10]
    ap = dedupe([p for p in list(ex.anchors_ptr) + sp if not (isinstance(p, int) and p == 0)])[:10]
    C = []
    # bounds
    for l in ints:
        for nm, a in [('0', 0), ('v0', l.v0)] + [('a%d' % i, a) for i, a in enumerate(ai)]:
            C.append(Cand('%s>=%s' % (l, nm), lambda s, l=l, a=a: ge(l.get(s), a)))
            C.append(Cand('%s<=%s' % (l, nm), lambda s, l=l, a=a: le(l.get(s), a)))
        if l.t.signed: C.append(Cand('%s>=-1' % l, lambda s, l=l: ge(l.get(s), -1)))
    for l in ptrs:
        for nm, a in [('v0', l.v0)] + [('p%d' % i, a) for i, a in enumerate(ap)]:
            C.append(Cand('%s>=%s' % (l, nm), lambda s, l=l, a=a: ge(l.get(s), a)))
            C.append(Cand('%s<=%s' % (l, nm), lambda s, l=l, a=a: le(l.get(s), a)))
            C.append(Cand('%s>=%s-1' % (l, nm), lambda s, l=l, a=a: ge(l.get(s), sub(a, 1))))
    for did, vals in assigned_consts(body).items():
        for l in ints:
            if st.env.get(did) == l.c and not l.p and len(vals) < 6:
                C.append(Cand('%s in %s' % (l, sorted(vals)), lambda s, l=l, vals=vals: Or(eq(l.get(s), l.v0), *[eq(l.get(s), v) for v in sorted(vals)])))
    num = ints + ptrs
    # linear relations
    for a, b in itertools.combinations(num, 2):
        C.append(Cand('%s-%s const' % (a, b), lambda s, a=a, b=b: eq(sub(a.get(s), b.get(s)), sub(a.v0, b.v0))))
        C.append(Cand('%s+%s const' % (a, b), lambda s, a=a, b=b: eq(add(a.get(s), b.get(s)), add(a.v0, b.v0))))
        C.append(Cand('%s<=%s' % (a, b), lambda s, a=a, b=b: le(a.get(s), b.get(s))))
        C.append(Cand('%s<=%s' % (b, a), lambda s, a=a, b=b: le(b.get(s), a.get(s))))
    for a in num:
        for b in num:
            if a is b: continue
            C.append(Cand('2*%s+%s const' % (a, b), lambda s, a=a, b=b: eq(add(mul(2, a.get(s)), b.get(s)), add(mul(2, a.v0), b.v0))))
            C.append(Cand('2*%s-%s const' % (a, b), lambda s, a=a, b=b: eq(sub(mul(2, a.get(s)), b.get(s)), sub(mul(2, a.v0), b.v0))))
    if len(num) <= 6:
        for a, b, c in itertools.combinations(num, 3):
            for s1 in (1, -1):
                for s2 in (1, -1):
                    C.append(Cand('lin3', lambda s, a=a, b=b, c=c, s1=s1, s2=s2:
                        eq(add(a.get(s), add(mul(s1, b.get(s)), mul(s2, c.get(s)))), add(a.v0, add(mul(s1, b.v0), mul(s2, c.v0))))))
    # guards
    guards = []
    for l in bools:
        guards += [(str(l), lambda s, l=l: B(l.get(s))), ('!' + str(l), lambda s, l=l: Not(B(l.get(s))))]
    for l in ints:
        if isinstance(l.v0, int) and l.v0 == 0 and l.t.signed:
            guards += [(str(l) + '!=0', lambda s, l=l: ne(l.get(s), 0)), (str(l) + '==0', lambda s, l=l: eq(l.get(s), 0))]
    for l in ptrs:
        if isinstance(l.v0, int) and l.v0 == 0:
            guards += [(str(l) + '!=0', lambda s, l=l: ne(l.get(s), 0)), (str(l) + '==0', lambda s, l=l: eq(l.get(s), 0))]
    guards = guards[:8]
    for gn, g in guards:
        for l in num:
            if gn.lstrip('!').split('!=')[0].split('==')[0] == str(l): continue
            C.append(Cand('%s => %s moved' % (gn, l), lambda s, g=g, l=l: Implies(g(s), ne(l.get(s), l.v0))))
            C.append(Cand('%s => %s up' % (gn, l), lambda s, g=g, l=l: Implies(g(s), gt(l.get(s), l.v0))))
            C.append(Cand('%s => %s down' % (gn, l), lambda s, g=g, l=l: Implies(g(s), lt(l.get(s), l.v0))))
            if tier > 1 or l.t.k == 'ptr':
                for a in (ap if l.t.k == 'ptr' else ai):
                    C.append(Cand('%s => %s<a' % (gn, l), lambda s, g=g, l=l, a=a: Implies(g(s), lt(l.get(s), a))))
                    C.append(Cand('%s => %s>=a' % (gn, l), lambda s, g=g, l=l, a=a: Implies(g(s), ge(l.get(s), a))))
        for l in ints:
            if l.t.bits < 32: continue
            for q in ptrs:
                for p in ap[:6]:
                    for d in (0, 1, -1):
                        C.append(Cand('%s => %s==p+%s%+d' % (gn, q, l, d), lambda s, g=g, q=q, l=l, p=p, d=d: Implies(g(s), eq(q.get(s), add(add(p, l.get(s)), d)))))
        if len(num) <= 4:
            for a, b in itertools.combinations(num, 2):
                for d in (-1, 1, 0):
                    C.append(Cand('%s => lin2 %d' % (gn, d), lambda s, g=g, a=a, b=b, d=d: Implies(g(s), eq(add(a.get(s), b.get(s)), add(d, add(a.v0, b.v0))))))
                    C.append(Cand('%s => lin2- %d' % (gn, d), lambda s, g=g, a=a, b=b, d=d: Implies(g(s), eq(sub(a.get(s), b.get(s)), add(d, sub(a.v0, b.v0))))))
    # the loop condition's own conjuncts, weakened or guarded
    for nm, f in cond_atoms(ex, cond):
        C.append(Cand('cond ' + nm, f))
        for gn, g in guards:
            C.append(Cand('%s => cond %s' % (gn, nm), lambda s, g=g, f=f: Implies(g(s), f(s))))
        for l in num[:4]:
            C.append(Cand('%s moved => cond %s' % (l, nm), lambda s, l=l, f=f: Implies(ne(l.get(s), l.v0), f(s))))
    for l in floats:
        from .floats import rcmp
        F0 = Fraction(0)
        C.append(Cand('%s finite' % l, lambda s, l=l: eq(l.get(s)['#f'], 0)))
        C.append(Cand('%s finite or infinite' % l, lambda s, l=l: And(ge(l.get(s)['#f'], 0), le(l.get(s)['#f'], 2))))
        C.append(Cand('%s finite or +infinite' % l, lambda s, l=l: And(ge(l.get(s)['#f'], 0), le(l.get(s)['#f'], 1))))
        C.append(Cand('%s>=0' % l, lambda s, l=l: Or(eq(l.get(s)['#f'], 1), And(eq(l.get(s)['#f'], 0), rcmp('<=', F0, l.get(s)['v'])))))
    # flag relations
    for a, b in itertools.combinations(bools, 2):
        C.append(Cand('b=>b', lambda s, a=a, b=b: Implies(a.get(s), b.get(s))))
        C.append(Cand('b<=b', lambda s, a=a, b=b: Implies(b.get(s), a.get(s))))
        C.append(Cand('!(b&b)', lambda s, a=a, b=b: Not(And(a.get(s), b.get(s)))))
    info = dict(ints=ints, ptrs=ptrs, bools=bools, ai=ai, ap=ap, num=num, leaves=leaves, arrs=arrs, floats=floats, guards=guards)
    return C, info

def gen_positions(ex, st, head, info, tier, regions=()):
    """candidates over positions; head satisfies the linear invariants"""
    C = []
    ints, ptrs, bools, ai, ap, num, leaves, arrs, floats, guards = [info[k] for k in 'ints ptrs bools ai ap num leaves arrs floats guards'.split()]
    # positions
    pos = [(str(l), l.get, l.v0) for l in ptrs]
    for l in ints:
        if l.t.bits < 32: continue
        for j, a in enumerate(ap[:6]):
            pos.append(('p%d+%s' % (j, l), lambda s, l=l, a=a: add(a, l.get(s)), add(a, l.v0)))
            pos.append(('p%d-%s' % (j, l), lambda s, l=l, a=a: sub(a, l.get(s)), sub(a, l.v0)))
        for q in ptrs:
            pos.append(('%s+%s' % (q, l), lambda s, l=l, q=q: add(q.get(s), l.get(s)), add(q.v0, l.v0)))
    hints = ex.hints
    if not hints and not regions: return C
    for r in regions: ap = dedupe(ap + [r.lo, add(r.lo, r.n)])
    # keep only positions that stay near an anchor, one of each class of equal positions
    kept = []
    for nm, f, p0 in pos:
        v = f(head)
        if not any(ex.prove(head, ge(v, sub(a, 1)), 800) for a in ap + [p0]): continue
        if not any(ex.prove(head, le(v, add(a, 1)), 800) for a in ap + [p0]): continue
        if any(ex.prove(head, eq(v, g(head)), 800) for _, g, _ in kept): continue
        kept.append((nm, f, p0))
    pos = kept
    def uniq(xs):
        out = []
        for x in xs:
            if not any(ex.prove(head, eq(x, y), 800) for y in out): out.append(x)
        return out
    ap = uniq(ap)
    _uc = {}
    def uniq_cache(p0):
        k = p0 if isinstance(p0, int) else p0.get_id()
        if k not in _uc: _uc[k] = uniq([p0] + ap[:6])
        return _uc[k]
    _oc = {}
    def ordered(lo, p):
        k = (str(lo), str(p))
        if k not in _oc:
            _oc[k] = (ex.prove(head, le(lo, add(p, 1)), 800), ex.prove(head, le(p, add(lo, 1)), 800))
        return _oc[k]
    pre = st.mem
    def hpat(s):
        for u in reversed(s.mem.log):
            if u[0] == 'h': return lambda k: u[3].H(k)
        return lambda k: s.mem.base.H(k)
    for r in regions:
        lo, hi = r.lo, add(r.lo, r.n)
        inr = [x for x in pos if ex.prove(head, And(le(sub(lo, 1), x[1](head)), le(x[1](head), add(hi, 1))), 800)]
        def frame(nm, a, b):
            C.append(Cand('frame ' + nm, lambda s, a=a, b=b: forall(a(s), b(s), lambda k: eq(s.mem.rd(k), pre.rd(k)), hpat(s)), 'q'))
        C.append(Cand('frame all', lambda s, lo=lo, hi=hi: forall(lo, hi, lambda k: eq(s.mem.rd(k), pre.rd(k)), hpat(s)), 'q'))
        for pn, pf, p0 in inr[:6]:
            frame('[%s..hi)' % pn, pf, lambda s, hi=hi: hi)
            frame('(%s..hi)' % pn, lambda s, pf=pf: add(pf(s), 1), lambda s, hi=hi: hi)
            frame('[lo..%s)' % pn, lambda s, lo=lo: lo, pf)
            frame('[lo..%s)' % 'p0', lambda s, lo=lo: lo, lambda s, p0=p0: p0)
            frame('[p0..hi)', lambda s, p0=p0: p0, lambda s, hi=hi: hi)
            srcs = dedupe([p0_ for _, _, p0_ in pos] + ap)[:8]
            for d0 in dedupe([p0, lo]):
                for s0 in srcs:
                    C.append(Cand('copied up to %s' % pn, lambda s, d0=d0, s0=s0, pf=pf: forall(d0, pf(s), lambda k: eq(s.mem.rd(k), pre.rd(add(s0, sub(k, d0)))), hpat(s)), 'q'))
                C.append(Cand('zero up to %s' % pn, lambda s, d0=d0, pf=pf: forall(d0, pf(s), lambda k: eq(s.mem.rd(k), 0), hpat(s)), 'q'))
            for s0 in srcs:
                C.append(Cand('copied from %s' % pn, lambda s, p0=p0, s0=s0, pf=pf: forall(pf(s), p0, lambda k: eq(s.mem.rd(k), pre.rd(add(s0, sub(k, p0)))), hpat(s)), 'q'))
    for h in hints:
        if h.kind != 'pos': continue
        for pn, pf, p0 in pos:
            rs = []
            for lo in uniq_cache(p0):
                up, down = ordered(lo, pf(head))
                if up or down: rs.append((lo, up, down))
            for sg in (True, False):
                f = h.f if sg else (lambda k, h=h: Not(h.f(k)))
                for lo, up, down in rs:
                    if up:
                        C.append(Cand('A[lo..%s)' % pn, lambda s, f=f, lo=lo, pf=pf, h=h: forall(lo, pf(s), f, h.pat), 'q'))
                    if down:
                        C.append(Cand('A[%s..hi)' % pn, lambda s, f=f, lo=lo, pf=pf, h=h: forall(pf(s), lo, f, h.pat), 'q'))
                        C.append(Cand('A(%s..hi)' % pn, lambda s, f=f, lo=lo, pf=pf, h=h: forall(add(pf(s), 1), lo, f, h.pat), 'q'))
                        if lo is p0 or tier > 1:
                            C.append(Cand('A(%s..hi]' % pn, lambda s, f=f, lo=lo, pf=pf, h=h: forall(add(pf(s), 1), add(lo, 1), f, h.pat), 'q'))
                    for gn, g in guards:
                        if up:
                            C.append(Cand('%s=>A[lo..%s-1)' % (gn, pn), lambda s, f=f, lo=lo, pf=pf, h=h, g=g: Implies(g(s), forall(lo, sub(pf(s), 1), f, h.pat)), 'q'))
                            C.append(Cand('%s=>A[lo..%s)' % (gn, pn), lambda s, f=f, lo=lo, pf=pf, h=h, g=g: Implies(g(s), forall(lo, pf(s), f, h.pat)), 'q'))
                        if down:
                            C.append(Cand('%s=>A[%s..hi)' % (gn, pn), lambda s, f=f, lo=lo, pf=pf, h=h, g=g: Implies(g(s), forall(pf(s), lo, f, h.pat)), 'q'))
                        if down and (tier > 1 or lo is p0):
                            C.append(Cand('%s=>A(%s+1..hi]' % (gn, pn), lambda s, f=f, lo=lo, pf=pf, h=h, g=g: Implies(g(s), forall(add(pf(s), 2), add(lo, 1), f, h.pat)), 'q'))
                            C.append(Cand('%s=>A(%s..hi]' % (gn, pn), lambda s, f=f, lo=lo, pf=pf, h=h, g=g: Implies(g(s), forall(add(pf(s), 1), add(lo, 1), f, h.pat)), 'q'))
                for gn, g in guards:
                    for d in (0, -1, 1):
                        C.append(Cand('%s=>at %s%+d' % (gn, pn, d), lambda s, f=f, pf=pf, g=g, d=d: Implies(g(s), f(add(pf(s), d))), 'lin', lambda s, pf=pf, d=d: add(pf(s), d)))
    for h in hints:
        if h.kind != 'fold': continue
        for l in leaves:
            if isinstance(l.v0, Undef): continue
            if (h.sort == 'bool') != (l.t.k == 'bool'): continue
            if (h.sort == 'real') != (l.t.k == 'float'): continue
            if h.sort == 'real':
                from .floats import R
                if ex.fmode != 'ideal': continue
                for pn, pf, p0 in pos:
                    for d in (0, 1, -1):
                        C.append(Cand('%s==v0+%s(%s%+d)' % (l, h.name, pn, d), lambda s, l=l, h=h, pf=pf, d=d: R(l.get(s)['v']) == R(l.v0['v']) + R(h.f(add(pf(s), d)))))
                continue
            for pn, pf, p0 in pos:
                if pn == str(l) or ('+' + str(l)) in pn or ('-' + str(l)) in pn or pn.startswith(str(l) + '+'): continue
                for d in (0, 1, -1):
                    C.append(Cand('%s==%s(%s%+d)' % (l, h.name, pn, d), lambda s, l=l, h=h, pf=pf, d=d: eq(l.get(s), h.f(add(pf(s), d)))))
                    for gn, g in guards:
                        if str(l) in gn and h.sort == 'bool': continue
                        C.append(Cand('%s=>%s==%s(%s%+d)' % (gn, l, h.name, pn, d), lambda s, l=l, h=h, pf=pf, d=d, g=g: Implies(g(s), eq(l.get(s), h.f(add(pf(s), d))))))
    for h in hints:
        if h.kind == 'gen':
            for nm, fn, mark in h.f(ex, st, dict(leaves=leaves, ints=ints, ptrs=ptrs, bools=bools, arrs=arrs, floats=floats, pos=pos, guards=guards, ap=ap, ai=ai, regions=regions, head=head,
                                   near=lambda f, lo, hi: ex.prove(head, And(le(sub(lo, 1), f(head)), le(f(head), add(hi, 1))), 800))):
                C.append(Cand(nm, fn, 'q', mark))
    return C

def dedupe(xs):
    out, seen = [], set()
    for x in xs:
        k = x if isinstance(x, int) else ('z', x.get_id())
        if k in seen: continue
        seen.add(k); out.append(x)
    return out

def ranks(info):
    base = []
    for l in info['ints']:
        base.append((str(l), lambda s, l=l: I(l.get(s))))
        for a in info['ai']:
            base.append(('a-%s' % l, lambda s, l=l, a=a: sub(a, l.get(s))))
    for l in info['ptrs']:
        for a in info['ap']:
            base.append(('p-%s' % l, lambda s, l=l, a=a: sub(a, l.get(s))))
            base.append(('%s-p+1' % l, lambda s, l=l, a=a: add(1, sub(l.get(s), a))))
    for a in info['ptrs']:
        for b in info['ptrs']:
            if a is not b: base.append(('%s-%s' % (a, b), lambda s, a=a, b=b: sub(a.get(s), b.get(s))))
    for a in info['ints']:
        for b in info['ints']:
            if a is not b: base.append(('%s-%s' % (a, b), lambda s, a=a, b=b: sub(a.get(s), b.get(s))))
    yield from base
    for l in info['bools']:
        for sg in (True, False):
            f = (lambda s, l=l, sg=sg: I(B(l.get(s)) if sg else Not(B(l.get(s)))))
            yield str(l), f
            for nm, b in base:
                yield '2*%s+%s' % (nm, l), (lambda s, b=b, f=f: add(mul(2, b(s)), f(s)))

def run_loop(ex, n, st, cond, body, inc, is_do):
    if is_do:
        out = []
        env = st.env
        for s, o in ex.exec(body, st):
            if o in ('next', 'continue'):
                s.env = env
                out += run_loop(ex, n, s, cond, body, inc, False)
            elif o == 'break': s.env = env; out.append((s, 'next'))
            else: out.append((s, o))
        return out
    r = try_unroll(ex, st, cond, body, inc)
    if r is not None: return r
    return abstract(ex, n, st, cond, body, inc)

def trial(ex, s, cond, body, inc):
    rec, w = ex.record, ex.wset
    nob = len(ex.obls)
    ex.record = False; ex.wset = []
    try:
        return one_iter(ex, s.copy(), cond, body, inc) + (ex.wset,)
    finally:
        ex.record = rec
        if w is not None: w.extend(ex.wset)
        ex.wset = w
        del ex.obls[nob:]

def initial(ex, st, cands):
    keep = []
    for c in cands:
        try: f = c.fn(st)
        except (Unsupported, AttributeError, TypeError, z3.Z3Exception): continue
        if ex.pr.valid(st.pc, f, 1000): keep.append(c)
    if ex.deadline and time.time() > ex.deadline: raise Budget('time budget of this function is used up')
    return keep

def houdini(ex, st, M, regions, keep, given, cond, body, inc):
    """the largest inductive subset of keep, relative to the invariants in given"""
    while keep:
        head = havoc(ex, st, M, regions)
        for c in given: c.assume(ex, head)
        for c in keep: c.assume(ex, head)
        backs, exits, rets, ws = trial(ex, head, cond, body, inc)
        bad = set()
        for b in backs:
            if not ex.feasible(b): continue
            fs = []
            for c in keep:
                if id(c) in bad: continue
                try: fs.append((c, B(c.fn(b))))
                except (Unsupported, AttributeError, TypeError, z3.Z3Exception): bad.add(id(c))
            lin = [f for c, f in fs if c.kind == 'lin' and f is not True]
            if lin and ex.pr.check(b.pc + [Not(And(*lin))], 4000) == 'unsat': fs = [x for x in fs if x[0].kind != 'lin']
            for c, f in fs:
                if f is True: continue
                t1 = time.time()
                okc = ex.pr.valid(b.pc, f, 2500)
                if DBG and time.time() - t1 > .5: print('SLOW %.1f' % (time.time() - t1), okc, c.name, c.kind)
                if not okc:
                    bad.add(id(c))
                    if DBG == '2' and c.kind == 'q': print('DROP', c.name, str(f)[:1500], ex.pr.model(b.pc, f)[:800])
                if ex.deadline and time.time() > ex.deadline: raise Budget('time budget of this function is used up')
        if not bad: break
        keep = [c for c in keep if id(c) not in bad]
    return keep

def abstract(ex, n, st, cond, body, inc):
    ex.loops += 1
    cells = list(st.store)
    M = {}
    regions = []
    memch = False
    T0 = ex.pr.timeout
    for attempt in range(12):
        # --- what does the body change?
        for _ in range(12):
            head = havoc(ex, st, M, regions)
            backs, exits, rets, ws = trial(ex, head, cond, body, inc)
            grew = False
            for b in backs:
                for k, w in changed_leaves(head, b, cells).items():
                    if w in ('gone', 'shape'): ex.unsupported('a loop changes the shape of an object', n)
                    if k not in M: M[k] = True; grew = True
                if b.mem is not head.mem and not memch:
                    memch = True; grew = True
            if memch:
                rs = writable(ex, st, ws)
                if len(rs) != len(regions): grew = True; regions = rs
            if not grew: break
        if not M and not memch:
            # nothing changes: either no iteration comes back, or it never ends
            if not backs:
                bk, ex_, rt = one_iter(ex, st.copy(), cond, body, inc)
                return [(s, 'next') for s in ex_] + rt
        # --- invariant
        cands, info = gen_cands(ex, st, M, ex.tier, cond, body)
        lin = houdini(ex, st, M, regions, initial(ex, st, cands), [], cond, body, inc)
        head = havoc(ex, st, M, regions)
        for c in lin: c.assume(ex, head)
        cands = gen_positions(ex, st, head, info, ex.tier, regions)
        cands = [c for c in cands if c.kind != 'q' or not ex.pr.valid(head.pc, c.fn(head), 500)]
        keep = lin + houdini(ex, st, M, regions, initial(ex, st, cands), lin, cond, body, inc)
        head = havoc(ex, st, M, regions)
        for c in keep: c.assume(ex, head)
        backs, exits, rets, ws = trial(ex, head, cond, body, inc)
        # --- does the body change more than we thought (under the invariant)?
        more = False
        for b in backs:
            for k in changed_leaves(head, b, cells):
                if k not in M and ex.feasible(b): M[k] = True; more = True
            if b.mem is not head.mem and not memch: memch = True; more = True
        if more: continue
        break
    else:
        ex.unsupported('loop frame did not stabilise', n)
    if not ex.record:
        head = havoc(ex, st, M, regions)
        for c in keep: c.assume(ex, head)
        backs, exits, rets, _ = trial(ex, head, cond, body, inc)
        return [(s, 'next') for s in exits] + rets
    # --- the recorded pass
    if DBG:
        print('LOOP', n.line, 'modified', sorted(map(repr, M)), 'regions', [(str(r.lo), str(r.n)) for r in regions])
        for c in keep: print('   ', c.name, '|', str(c.fn(head)).replace(chr(10), ' ')[:160])
    head = havoc(ex, st, M, regions)
    for c in keep: c.assume(ex, head)
    h0 = head.copy()
    backs, exits, rets = one_iter(ex, head, cond, body, inc)
    where = '%s:%s' % (ex.stack[-1].name if ex.stack else '?', n.line)
    backs = [b for b in backs if ex.feasible(b)]
    for b in backs:
        if any(k not in M for k in changed_leaves(h0, b, cells)) or (b.mem is not h0.mem and not memch):
            ex.unsupported('loop frame', n)
        for bid, x in h0.blocks.items():
            y = b.blocks.get(bid)
            if y is None or y['alive'] != x['alive'] or y['hdr'] != x['hdr']: ex.unsupported('a loop allocates or frees memory', n)
        if len(b.blocks) != len(h0.blocks): ex.unsupported('a loop allocates memory', n)
    for c in keep:
        ex.obls.append(Obl('inv', 'loop invariant %s is inductive' % c.name, where, True))
    ok = not backs
    if backs:
        for nm, r in ranks(info):
            try:
                if all(ex.pr.valid(b.pc, And(ge(r(h0), 0), lt(r(b), r(h0))), 1500) for b in backs):
                    ok = True; break
            except (Unsupported, TypeError, AttributeError): continue
            if ex.deadline and time.time() > ex.deadline: raise Budget('time budget of this function is used up')
    ex.obls.append(Obl('term', 'the loop terminates' + (' (rank %s)' % nm if ok and backs else ''), where, ok, '' if ok else 'no ranking function found'))
    return [(s, 'next') for s in exits] + rets

def writable(ex, st, ws):
    known = [r for r in ws if r is not None]
    allw = [r for r in st.regions.values() if r.live and r.writable]
    if any(r is None for r in ws) or not known: rs = allw
    else:
        ids = {id(r) for r in known}
        rs = [r for r in allw if id(r) in ids]
        if len(rs) != len(ids): rs = allw
    out = []
    from .engine import Region
    for r in rs:
        if r.kind == 'block':
            b = st.blocks[r.bid]
            out.append(Region(add(r.lo, b['hsize']), sub(r.n, b['hsize']), r.kind, True, True, r.bid))
        else: out.append(r)
    return out
