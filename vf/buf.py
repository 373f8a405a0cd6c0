"""Contracts over buffers: the buffer object in specifications, the allocator, formatter and va_list models."""
import z3, itertools, copy, time, os, sys
from .sym import *
from .contract import *
from .contract import Contract, Gen, fresh_view, to_spec, prove_post, RETK
from .engine import Ex, St, Region, OPtr, Fn, Mem, Obl, Undef, ADDR_MAX, PTR_LIM, get_path
from .cast import CT, INT, CHAR
from .loops import forall
from . import theory

HS = 24                      # header size assumed by the specification (checked against the sources)
BUF_T = CT('struct', name='strbuf_t')
BUFP_T = CT('ptr', 64, to=BUF_T)
ALLOC_T = CT('struct', name='strbuf_allocator_t')

class Bf:
    """a buffer in a specification; null: the argument is null, none: it points to a null pointer"""
    def __init__(s, null=False, none=False, ok=True, addr=0, size=0, cap=0, dyn=False, ad=0, af=0, n=0, bid=None):
        s.null, s.none, s.ok, s.addr, s.size, s.cap, s.dyn, s.ad, s.af, s.n, s.bid = null, none, ok, addr, size, cap, dyn, ad, af, n, bid
    @property
    def c(s): return add(s.addr, HS)
    @property
    def absent(s): return s.null or s.none
    @property
    def view(s): return V(s.c, s.size)
    @property
    def limit(s): return INT_MAX if s.dyn else s.cap

def roundup(v, step):
    """v rounded up to a multiple of step, INT_MAX if that does not fit"""
    if isinstance(v, int):
        r = (v + step - 1) // step * step
        return r if r <= INT_MAX else INT_MAX
    r = mul(fdiv(add(v, step - 1), step), step)
    return Ite(le(r, INT_MAX), r, INT_MAX)

# ---------------------------------------------------------------- blocks
def header(ex, st, size, cap, ad, af):
    h = {}
    for n, t in ex.fields(BUF_T):
        if n == 'cstr': continue
        if n == 'size': h[n] = size
        elif n == 'capacity': h[n] = cap
        elif n == 'allocator':
            a = {}
            for m, u in ex.fields(ALLOC_T): a[m] = ad if m == 'app_data' else af if m == 'allocator' else ex.fresh(st, u, m)
            h[n] = a
        else: h[n] = ex.fresh(st, t, n)
    return h

def new_block(ex, st, addr, n, hdr=None, raw=True, kind='heap'):
    bid = max(list(st.blocks) or [0]) + 1
    cell = ex.new_cell(st, hdr if hdr is not None else {}, BUF_T)
    st.blocks = dict(st.blocks)
    st.blocks[bid] = {'addr': addr, 'n': n, 'hsize': HS, 'alive': True, 'hdr': hdr is not None, 'raw': hdr is None and raw, 'cell': cell, 'kind': kind}
    st.regions['blk%d' % bid] = Region(addr, n, 'block', True, True, bid)
    return bid

def kill_block(ex, st, bid):
    st.blocks = dict(st.blocks)
    b = dict(st.blocks[bid]); b['alive'] = False
    st.blocks[bid] = b
    st.store.pop(b['cell'], None)
    st.regions = dict(st.regions)
    st.regions['blk%d' % bid] = st.regions['blk%d' % bid].dead()

def fresh_addr(ex, st, n, but=None):
    a = fresh_int('blk')
    st.assume(z3.And(a >= 4096, a % 8 == 0)); st.assume(le(add(a, n), ADDR_MAX))
    for k, r in st.regions.items():
        if r.live and not (but is not None and r.bid == but):
            st.assume(Or(le(add(a, n), r.lo), le(add(r.lo, r.n), a)))
    for f in st.g.get('families', ()): f(st, a, n)
    if but is not None:
        b = st.blocks[but]
        st.assume(Or(eq(a, b['addr']), le(add(a, n), b['addr']), le(add(b['addr'], b['n']), a)))
    return a

def realloc(ex, st, bid, size):
    """the allocator moves block bid (or nothing: None) to a block of the given size > 0; new block id"""
    hb = ex.th.new_base()
    if bid is None:
        a = fresh_addr(ex, st, size)
        st.mem = st.mem.upd('h', a, I(size), hb)
        return new_block(ex, st, a, size)
    b = st.blocks[bid]
    a = fresh_addr(ex, st, size, but=bid)
    st.mem = st.mem.upd('c', a, I(size), b['addr'])
    if not ex.prove(st, le(size, b['n']), 1000):
        lo = Ite(le(size, b['n']), size, b['n'])
        st.mem = st.mem.upd('h', add(a, lo), sub(size, lo), hb)
    hdr = dict(st.store[b['cell']]) if b['hdr'] and b['cell'] in st.store else None
    kill_block(ex, st, bid)
    return new_block(ex, st, a, size, hdr, raw=False)

def m_alloc(ex, st, f, this, ptr, size, node):
    """a call of the user's allocator"""
    if not ex.record: return []         # inside the search for a loop invariant: such paths are refused later on if they exist
    st.g = dict(st.g); st.g['allocs'] = st.g.get('allocs', 0) + 1
    al = st.g.get('alloc')
    ob = lambda c, nm, tag='post:B05': ex.oblige(st, c, tag, nm, node)
    if st.g.get('fixed'):
        ob(False, 'an operation on a fixed buffer calls no allocator', 'post:B04')
        st.assume(False); return []
    ob(eq(f, al[1]), 'the function called is the allocator of the buffer')
    if isinstance(this, OPtr):
        v = ex.load(st, ('c', this.cell, this.path, ALLOC_T), node)
        if not isinstance(v, dict) or 'app_data' not in v: ex.unsupported('allocator argument', node)
        if isinstance(v['app_data'], Undef) or isinstance(v['allocator'], Undef): ob(False, 'the allocator gets its own data')
        else: ob(And(eq(v['app_data'], al[0]), eq(v['allocator'], al[1])), 'the allocator gets its own data')
    else:
        a = [b for b in st.blocks.values() if b['alive'] and b['hdr'] and ex.prove(st, eq(this, add(b['addr'], ex.offsetof(BUF_T, 'allocator'))))]
        ob(bool(a), 'the allocator gets its own data')
    bid = None
    if isinstance(ptr, (OPtr, Fn)): ob(False, 'the allocator gets a block it handed out'); return []
    if not (isinstance(ptr, int) and ptr == 0):
        bid = ex.block_at(st, ptr, node)
        if bid is None or st.blocks[bid]['kind'] != 'heap':
            ob(False, 'the allocator gets a block the operation owns'); st.assume(False); return []
    out = []
    for s, z in ex.branch(st, eq(size, 0)):
        if z:
            if bid is not None: kill_block(ex, s, bid)
            out.append((s, 0)); continue
        ex.oblige(s, le(size, INT_MAX + 64), 'post:B05 B06', 'the requested size is a sane one', node)
        nb = realloc(ex, s, bid, size)
        out.append((s, s.blocks[nb]['addr']))
    return out

def m_indirect(ex, st, f, vs, node):
    fx = st.g.get('fetch')
    if fx is not None and ex.prove(st, eq(f, fx[0])): return fx[1](ex, st, f, vs, node)
    if len(vs) == 3 and ('alloc' in st.g or st.g.get('fixed')): return m_alloc(ex, st, f, vs[0], vs[1], vs[2], node)
    ex.unsupported('indirect call', node)

# ---------------------------------------------------------------- buffers in states
def read_buf(ex, st, p):
    """the buffer whose address is p, as it is in st"""
    if isinstance(p, int) and p == 0: return Bf(none=True)
    if isinstance(p, (OPtr, Fn, Undef)): return Bf(ok=False)
    bid = ex.block_at(st, p, None)
    if bid is None: return Bf(ok=False, addr=p)
    b = st.blocks[bid]
    h = st.store.get(b['cell'])
    if not b['hdr'] or h is None: return Bf(ok=False, addr=p, bid=bid, n=b['n'])
    x = [h.get('size'), h.get('capacity'), h['allocator'].get('app_data'), h['allocator'].get('allocator')]
    if any(isinstance(v, (Undef, OPtr)) or v is None for v in x): return Bf(ok=False, addr=p, bid=bid, n=b['n'])
    return Bf(addr=b['addr'], size=x[0], cap=x[1], ad=x[2], af=x[3], n=b['n'], bid=bid, dyn=None)

def inv(b, H):
    """the buffer invariant (the header's fields are typed, so their ranges come for free)"""
    return [le(0, b.size), le(b.size, b.cap), le(b.cap, INT_MAX), eq(H(add(b.c, b.size)), 0), ge(b.n, add(b.cap, HS + 1))]

def make_buf(ex, st, X, pn, sc):
    k = sc[pn]
    if k == 'null': setattr(X.a, pn, Bf(null=True)); return 0
    if k == 'none':
        setattr(X.a, pn, Bf(none=True))
        c = ex.new_cell(st, 0, BUFP_T); X.g.__dict__[pn] = OPtr(c); return OPtr(c)
    addr, size, cap = z3.Int(pn), z3.Int(pn + '_size'), z3.Int(pn + '_cap')
    n = add(cap, HS + 1)
    st.assume(z3.And(addr >= 4096, addr % 8 == 0, 0 <= size, size <= cap, cap <= INT_MAX, addr + cap + HS + 1 <= ADDR_MAX))
    ad = fresh_int('app_data'); st.assume(z3.And(ad >= 0, ad < PTR_LIM))
    af = 0
    if k == 'dyn':
        af = z3.Int('ALLOCATOR'); st.assume(z3.And(af > 0, af < ADDR_MAX))
    hdr = header(ex, st, size, cap, ad, af)
    bid = new_block(ex, st, addr, n, hdr, kind='heap' if k == 'dyn' else 'fixed')
    st.assume(ex.base.H(addr + HS + size) == 0)
    c = ex.new_cell(st, addr, BUFP_T)
    X.g.__dict__[pn] = OPtr(c)
    b = Bf(addr=addr, size=size, cap=cap, dyn=k == 'dyn', ad=ad, af=af, n=n, bid=bid)
    setattr(X.a, pn, b)
    st.g = dict(st.g)
    if k == 'dyn': st.g['alloc'] = (ad, af)
    else: st.g['fixed'] = True
    ex.anchors_ptr += [b.c, add(b.c, size)]; ex.anchors_int += [size, cap]
    return OPtr(c)

def block_cands(ex, st, info):
    """candidate loop invariants: the buffers alive stay well formed"""
    for bid, bl in st.blocks.items():
        if not (bl['alive'] and bl['hdr']): continue
        def get(q, f, bl=bl): return q.store[bl['cell']][f]
        yield 'size<=cap', (lambda q, get=get: And(le(0, get(q, 'size')), le(get(q, 'size'), get(q, 'capacity')))), None
        at = lambda q, bl=bl, get=get: add(add(bl['addr'], HS), get(q, 'size'))
        yield 'terminated', (lambda q, at=at: eq(q.mem.rd(at(q)), 0)), None

class BufContract(Contract):
    modular = False
    buf = 'buf'
    steps = (16,)
    def __init__(s, name, params, **kw):
        kw.setdefault('tu', 'strbuf'); kw.setdefault('writes', lambda X: [])
        super().__init__(name, params, **kw)
        if s.extra.get('runner') is None:
            from .bufrun import BufRunner
            s.extra['runner'] = BufRunner
        s.modular = bool(s.extra.get('modular'))

    def scenarios(s):
        opts = []
        for pn, k in s.params:
            if k == 'buf**': opts.append([(pn, x) for x in ('fix', 'dyn', 'null', 'none')])
            elif k == 'buf**!': opts.append([(pn, x) for x in ('fix', 'dyn')])
            elif k == 'bview': opts.append([(pn, x) for x in ('out', 'in')])
            elif k == 'bcstr': opts.append([(pn, x) for x in ('out', 'in', 'null')])
            elif k == 'alloc*': opts.append([(pn, x) for x in ('null', 'ok')])
            elif k == 'steps': pass
        for step in s.extra.get('steps', (16,)):
            for combo in itertools.product(*opts):
                sc = dict(combo)
                bufs = [sc[pn] for pn, k in s.params if k.startswith('buf**')]
                have = bool(bufs) and bufs[0] in ('fix', 'dyn')
                if any(v == 'in' for v in sc.values()) and not have: continue
                sc['_step'] = step
                if step != 16:
                    if not any(v == 'dyn' for v in sc.values()) and bufs: continue
                    sc['step'] = step
                yield from s.more_scenarios(sc)

    def more_scenarios(s, sc):
        if s.extra.get('more'): yield from s.extra['more'](sc)
        else: yield sc

    # ---- verification
    def make(s, cfg, banned, fn_name, sc):
        ex = cfg.make_ex(s.tu if sc['_step'] == 16 else '%s_g%d' % (s.tu, sc['_step']))
        ex.banned = set(banned) | {s.name} | ({fn_name} if fn_name else set())
        ex.banned |= {n for n, c in cfg.contracts.items() if not getattr(c, 'modular', True)}
        ex.step = sc['_step']
        setup_models(ex)
        return ex

    def bind(s, ex, st, sc, X):
        X.step = sc['_step']
        if ex.offsetof(BUF_T, 'cstr') != HS: raise Unsupported('another buffer header')
        vs = {}
        order = sorted(range(len(s.params)), key=lambda i: (not s.params[i][1].startswith('buf**'), i))
        for i in order:
            pn, k = s.params[i]
            vs[i] = s.bind1(ex, st, sc, X, pn, k)
        ex.hints = list(ex.hints) + [Gen(block_cands)]
        if s.extra.get('setup'): s.extra['setup'](ex, st, sc, X)
        return [vs[i] for i in range(len(s.params))]

    def the_buf(s, X):
        for pn, k in s.params:
            if k.startswith('buf**'): return getattr(X.a, pn)
        return None

    def bind1(s, ex, st, sc, X, pn, k):
        if k.startswith('buf**'): return make_buf(ex, st, X, pn, sc)
        b = s.the_buf(X)
        if k == 'bview':
            if sc[pn] == 'in':
                d, n = z3.Int(pn + '_data'), z3.Int(pn + '_size')
                st.assume(And(le(b.c, d), ge(n, 0), le(d + n, add(b.c, b.size))))
                v = V(d, n)
            else:
                v = fresh_view(ex, st, pn)
                if b is not None and not b.absent:
                    st.assume(Or(le(v.end, b.addr), le(add(b.addr, b.n), v.data)))
            setattr(X.a, pn, v)
            return {'data': v.data, 'size': v.size}
        if k == 'bcstr':
            if sc[pn] == 'null': setattr(X.a, pn, INVALID); return 0
            if sc[pn] == 'in':
                d, n = z3.Int(pn), z3.Int(pn + '_len')
                st.assume(And(le(b.c, d), ge(n, 0), le(d + n, add(b.c, b.size)), eq(ex.base.H(d + n), 0)))
                kk = z3.Int('k')
                st.assume(z3.ForAll([kk], z3.Implies(z3.And(d <= kk, kk < d + n), ex.base.H(kk) != 0), patterns=[ex.base.H(kk)]))
                ex.cstrs.append((d, n))
                setattr(X.a, pn, V(d, n)); return d
            d = Contract.bind1(s, ex, st, sc, X, pn, 'cstr')
            v = getattr(X.a, pn)
            if b is not None and not b.absent: st.assume(Or(le(add(v.end, 1), b.addr), le(add(b.addr, b.n), v.data)))
            return d
        if k == 'va':
            c = ex.new_cell(st, {'va': s.extra['va'], 'idx': 0, 'dead': False}, CT('va_list'))
            X.g.__dict__[pn] = OPtr(c); setattr(X.a, pn, None)
            return OPtr(c)
        if k == 'fmt':
            d = z3.Int(pn); st.assume(z3.And(d >= 4096, d < ADDR_MAX)); setattr(X.a, pn, d); return d
        if k == 'fetcher':
            f = z3.Int(pn); st.assume(z3.And(f > 0, f < ADDR_MAX)); setattr(X.a, pn, f)
            if b is not None and not b.absent and b.dyn: st.assume(f != b.af)
            return f
        if k == 'alloc*':
            ad = fresh_int('app_data'); af = z3.Int('ALLOCATOR')
            st.assume(z3.And(ad >= 0, ad < PTR_LIM, af >= 0, af < ADDR_MAX))
            X.g.own = (ad, af)
            st.g = dict(st.g); st.g['alloc'] = (ad, af)
            if sc[pn] == 'null': setattr(X.a, pn, P(True)); return 0
            c = ex.new_cell(st, {m: ad if m == 'app_data' else af for m, u in ex.fields(ALLOC_T)}, ALLOC_T)
            setattr(X.a, pn, P(False, (ad, af))); return OPtr(c)
        return Contract.bind1(s, ex, st, sc, X, pn, k)

    def run_scenario(s, ex, sc, fn_name):
        X_keep = {}
        Contract.run_scenario(s, ex, sc, fn_name)

    def fill_new(s, ex, X, s1, rv):
        X.mem1 = s1.mem; X.st1 = s1
        if s.ret == 'buf*': X.r = read_buf(ex, s1, rv); X.rp = rv
        else: X.r = to_spec(s.ret, rv)
        for pn, k in s.params:
            if k.startswith('buf**'):
                if pn in X.g.__dict__:
                    o = X.g.__dict__[pn]
                    nb = read_buf(ex, s1, get_path(s1.store[o.cell], o.path))
                    nb.dyn = getattr(X.a, pn).dyn
                    setattr(X.n, pn, nb)
                else: setattr(X.n, pn, Bf(null=True))
            elif k in ('view*', 'view*!') and pn in X.g.__dict__:
                o = X.g.__dict__[pn]; v = get_path(s1.store[o.cell], o.path)
                setattr(X.n, pn, P(False, V(v['data'], v['size'])))

    def frame_prop(s): return s.extra.get('frame_prop', 'B01')

    def check_posts(s, ex, st0, s1, X, rv, idx):
        s.fill_new(ex, X, s1, rv)
        allp = s.common(X, st0, s1)
        if not any(c is False for _, _, c in allp):
            allp += list(s.post(X)) if s.post else []
        # the caller's memory outside the buffer
        if s1.mem is not st0.mem:
            b = s.the_buf(X)
            a = fresh_int('frame')
            rs = [r for r in st0.regions.values() if r.kind != 'block']
            conds = [And(le(r.lo, a), lt(a, add(r.lo, r.n))) for r in rs]
            if rs:
                ok = s.extra['may_write'](X, a) if s.extra.get('may_write') else False
                allp.append((s.frame_prop(), "memory outside the buffer is unchanged", Implies(And(Or(*conds), Not(ok)), eq(s1.mem.rd(a), st0.mem.rd(a)))))
        for props, label, cond in allp:
            c = B(cond)
            ok = prove_post(ex, s1, c)
            info = '' if ok else ex.pr.model(s1.pc, c)
            ex.obls.append(Obl('post:' + props, label, '%s (path %d)' % (s.name, idx), ok, info))

    def common(s, X, st0, s1):
        out = []
        b = s.the_buf(X)
        alive = [i for i, q in s1.blocks.items() if q['alive'] and q['kind'] == 'heap']
        if b is None: return out
        pn = [p for p, k in s.params if k.startswith('buf**')][0]
        n = getattr(X.n, pn)
        if b.absent:
            if b.none: out.append(('B01', 'a null buffer stays null', n.none))
            out.append(('B01', 'an operation without a buffer allocates nothing', s1.g.get('allocs', 0) == 0))
            return out
        if s.extra.get('releases'): return out
        out.append(('B01 B05', 'the buffer pointer refers to a live, initialised buffer', (not n.none) and n.ok))
        if n.none or not n.ok: return out
        labels = ['size is not negative', 'size is at most the capacity', 'capacity is an int', 'the content is zero terminated', 'content and terminator lie in memory the buffer owns']
        out += [('B01 B05' if l is labels[4] else 'B01', l, c) for l, c in zip(labels, inv(n, lambda a: s1.mem.rd(a)))]
        out.append(('B05', 'the allocator of the buffer stays the same', And(eq(n.ad, b.ad), eq(n.af, b.af))))
        if b.dyn: out.append(('B05', 'every block obtained is freed or is the memory of the buffer', alive == [n.bid]))
        else:
            out.append(('B04', 'a fixed buffer keeps its address', eq(n.addr, b.addr)))
            out.append(('B04', 'a fixed buffer keeps its capacity', eq(n.cap, b.cap)))
        return out

def setup_models(ex):
    ex.models['indirect'] = m_indirect
    ex.models['vsnprintf'] = m_vsnprintf
    ex.models['__builtin_vsnprintf'] = m_vsnprintf
    ex.models['__builtin___vsnprintf_chk'] = lambda ex, st, vs, n: m_vsnprintf(ex, st, [vs[0], vs[1], vs[4], vs[5]], n)
    ex.models['vfptrprnf'] = m_vfptrprnf

# ---------------------------------------------------------------- formatters
def va_take(ex, st, v, node):
    """identity of the arguments a formatter gets; the list cannot be used afterwards"""
    if not isinstance(v, OPtr): ex.unsupported('va_list argument', node)
    cell = v.cell
    x = get_path(st.store[cell], v.path)
    if isinstance(x, OPtr): cell = x.cell; x = st.store[cell]; v = OPtr(cell)
    ex.oblige(st, Not(x['dead']), 'safe', 'va_list is in a defined state', node)
    w = dict(x); w['dead'] = True
    ex.store_lv(st, ('c', v.cell, v.path, None), w, node)
    return (x['va'], str(x['idx']))

def text_of(ex, st, fmt, va, err):
    """text and length the formatter produces for these arguments (a function of them)"""
    key = ('fmt', str(fmt), va, err)
    if key not in ex.opaque:
        i = len(ex.opaque)
        T = z3.Function('TXT%d' % i, z3.IntSort(), z3.IntSort()); L = z3.Int('TXTLEN%d' % i)
        j = z3.Int('j')
        ex.th.axiom(z3.ForAll([j], z3.And(T(j) >= -128, T(j) <= 127), patterns=[T(j)]))
        ex.th.axiom(z3.And(L >= (-2**31 if err else 0), L <= INT_MAX))
        ex.opaque[key] = (T, L)
    return ex.opaque[key]

def m_vsnprintf(ex, st, vs, node):
    d, n, fmt, va = vs
    ex.trusted.add('vsnprintf')
    T, L = text_of(ex, st, fmt, va_take(ex, st, va, node), True)
    out = []
    for s, neg in ex.branch(st, lt(L, 0)):
        if neg:
            if not (isinstance(n, int) and n == 0):        # the destination may hold anything
                r = ex.access(s, d, n, True, node)
                ex.note_write(s, d, n, r, node)
                s.mem = s.mem.upd('h', I(d), I(n), ex.th.new_base())
            out.append((s, L)); continue
        for s2, z in ex.branch(s, eq(n, 0)):
            if not z:
                m = Ite(lt(L, n), L, sub(n, 1))
                w = add(m, 1)
                r = ex.access(s2, d, w, True, node)
                ex.note_write(s2, d, w, r, node)
                hb = ex.th.new_base()
                k = z3.Int('k')
                ex.th.axiom(z3.ForAll([k], z3.Implies(z3.And(Z(I(d)) <= k, k < Z(add(d, m))), hb.H(k) == T(k - Z(I(d)))), patterns=[hb.H(k)]))
                ex.th.axiom(hb.H(Z(add(d, m))) == 0)
                s2.mem = s2.mem.upd('h', I(d), w, hb)
            out.append((s2, L))
    return out

def m_vfptrprnf(ex, st, vs, node):
    """calls the handler once for every character of the text; reasoned about by induction over the characters"""
    h, dst, fmt, va = vs
    ex.trusted.add('vfptrprnf')
    if not isinstance(h, Fn) or not isinstance(dst, OPtr): ex.unsupported('character handler', node)
    T, L = text_of(ex, st, fmt, va_take(ex, st, va, node), False)
    p0 = ex.load(st, ('c', dst.cell, dst.path, BUFP_T), node)
    b0 = read_buf(ex, st, p0)
    if not b0.ok or b0.none:
        ex.oblige(st, False, 'post:B01 B07', 'the formatter is given a buffer', node); return []
    fixed = bool(st.g.get('fixed'))
    limit = b0.cap if fixed else INT_MAX
    mem0 = st.mem
    tag = 'post:B01 B07'
    for c in inv(b0, st.mem.rd): ex.oblige(st, c, tag, 'the buffer is well formed before formatting', node)
    def J(s, i, ok):
        """after i characters; ok: everything fitted so far"""
        b = read_buf(ex, s, ex.load(s, ('c', dst.cell, dst.path, BUFP_T), node))
        if not b.ok or b.none: return None, [('B01 B07', False)]
        t = add(b0.size, i)
        cs = [('B01 B07', c) for c in inv(b, s.mem.rd)]
        cs.append(('B05 B07', And(eq(b.ad, b0.ad), eq(b.af, b0.af))))
        if fixed: cs.append(('B04 B07', And(eq(b.addr, b0.addr), eq(b.cap, b0.cap))))
        else: cs.append(('B05 B07', [x for x, q in s.blocks.items() if q['alive'] and q['kind'] == 'heap'] == [b.bid]))
        if ok:
            cs.append(('B04 B06 B07', And(eq(b.size, t), le(t, limit))))
            if not fixed:
                cs.append(('B06', eq(b.cap, Ite(le(t, b0.cap), b0.cap, roundup(t, ex.step)))))
                cs.append(('B06', Implies(le(t, b0.cap), eq(b.addr, b0.addr))))
            pat = lambda k: s.mem.log[-1][3].H(k) if s.mem.log and s.mem.log[-1][0] == 'h' else ex.base.H(k)
            cs.append(('B07', forall(b.c, add(b.c, b0.size), lambda k: eq(s.mem.rd(k), mem0.rd(add(sub(k, b.c), b0.c))), pat)))
            cs.append(('B07', forall(add(b.c, b0.size), add(b.c, t), lambda k: eq(s.mem.rd(k), T(Z(sub(sub(k, b.c), b0.size)))), pat)))
        else:
            cs.append(('B04 B06 B07', And(lt(b.size, t), gt(t, limit))))
        return b, cs
    def reach(s, i, ok):
        """the states after i characters in which J holds: in the same block, or moved any number of times"""
        return [x for x in ([reach1(s, i, ok, False)] + ([] if fixed else [reach1(s, i, ok, True)])) if ex.feasible(x)]
    def reach1(s, i, ok, moved):
        s = s.copy()
        hb = ex.th.new_base()
        if not moved:
            bid = b0.bid
            addr, cap = b0.addr, b0.cap
            if not fixed and ok: s.assume(le(add(b0.size, i), b0.cap))
        else:
            if ok: s.assume(gt(add(b0.size, i), b0.cap))
            cap = z3.Int(fresh_name('cap')); s.assume(z3.And(cap >= 0, cap <= INT_MAX))
            addr = fresh_addr(ex, s, add(cap, HS + 1), but=b0.bid)
            kill_block(ex, s, b0.bid)
            bid = new_block(ex, s, addr, add(cap, HS + 1), dict(st.store[st.blocks[b0.bid]['cell']]))
            ex.store_lv(s, ('c', dst.cell, dst.path, BUFP_T), addr, node)
        cell = s.blocks[bid]['cell']
        hd = dict(s.store[cell]); hd['size'] = fresh_int('size'); hd['capacity'] = cap
        s.assume(And(ge(hd['size'], 0), le(hd['size'], INT_MAX)))
        s.store[cell] = hd
        s.mem = s.mem.upd('h', add(addr, HS), add(cap, 1), hb)
        b, cs = J(s, i, ok)
        for _, c in cs: s.assume(c)
        return s
    if ex.record:
        # one character
        i = fresh_int('i')
        for ok in (True, False):
          for s in reach(st, i, ok):
            s.assume(And(ge(i, 0), lt(i, L)))
            if not ex.feasible(s): continue
            for s2, _ in ex.call(h, [dst, T(i)], s, node, None):
                if not ex.feasible(s2): continue
                for s3, fits in ex.branch(s2, le(add(add(b0.size, i), 1), limit)):
                    b, cs = J(s3, add(i, 1), fits)
                    for tg, c in cs: ex.oblige(s3, c, 'post:' + tg, 'the character handler appends one character', node)
    out = []
    for s, zero in ex.branch(st, eq(L, 0)):
        if zero: out.append((s, 0)); continue
        for ok in (True, False):
            out += [(q, L) for q in reach(s, L, ok)]
    return out
