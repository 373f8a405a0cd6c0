"""Contracts of strbuf.c"""
import z3
from vf.sym import *
from vf.contract import *
from vf.contract import RETK, Gen
from vf.buf import *
from vf.buf import BufContract
from vf.engine import ADDR_MAX, Region, OPtr, Fn, Undef, get_path
from vf.loops import forall
from vf.cast import CT, INT
from vf import theory, contract
from vf.theory import u8, s8

contract.RETK.update({'buf*': BUFP_T})
for st_ in (1, 7, 64):
    contract.SOURCES['strbuf_g%d' % st_] = ('strbuf.c', contract.SOURCES['strbuf'][1] + ['-DSTRBUF_CAPACITY_GROW_STEP=%d' % st_])
    contract.DEPS['strbuf_g%d' % st_] = ['strbuf_g%d' % st_, 'strview']

def C(name, params, ret='view', post=None, props='', **kw): return BufContract(name, params, ret=ret, post=post, props=props, **kw)

def tags(X, main, dynextra=''):
    b = X.a.buf
    return (main + (dynextra and ' ' + dynextra if b.dyn else ' B04')).strip()

def isview(X, main):
    return (main + ' B01', 'the result is a view of the content', X.r.same(X.n.buf.view))

def unchanged(X, t, label='the content is unchanged'):
    b, n = X.a.buf, X.n.buf
    return [(t, label, And(eq(n.addr, b.addr), eq(n.cap, b.cap), eq(n.size, b.size), X.all1(b.c, add(b.c, b.size), lambda k: eq(X.H1(k), X.H(k)))))]

def kept(X, t, label='the content is kept'):
    """same content, wherever the buffer is now"""
    b, n = X.a.buf, X.n.buf
    return [(t, label, And(eq(n.size, b.size), X.all1(n.c, add(n.c, b.size), lambda k: eq(X.H1(k), X.H(add(b.c, sub(k, n.c)))))))]

def edit(X, want, segs, main, ok=True, ovf='', capfail=True):
    """the buffer holds `want` bytes made of segs [(label, offset, length, f(index in segment))]; or is empty if they do not fit"""
    b, n = X.a.buf, X.n.buf
    fits = And(ok, le(want, b.limit))
    t = tags(X, main)
    out = [(t, 'the size is that of the edited string', Implies(fits, eq(n.size, want)))]
    for label, off, ln, f in segs:
        lo = add(n.c, off)
        out.append((t, label, Implies(fits, X.all1(lo, add(lo, ln), lambda k, f=f, lo=lo: eq(X.H1(k), f(sub(k, lo)))))))
    out.append((('B06' if b.dyn else 'B04') + (ovf and ' ' + ovf), 'a result that does not fit empties the buffer', Implies(Not(fits), eq(n.size, 0))))
    if b.dyn:
        grow = And(fits, gt(want, b.cap))
        out.append(('B06', 'capacity grows exactly when needed, to the needed size rounded up', Implies(True if capfail else fits, eq(n.cap, Ite(grow, roundup(want, X.step), b.cap)))))
        out.append(('B06', 'the buffer moves only to grow', Implies(Not(grow) if capfail else And(fits, Not(grow)), eq(n.addr, b.addr))))
    return out

def old(X, lo): return lambda j: X.H(add(add(X.a.buf.c, lo), j))
def src(X, v): return lambda j: X.H(add(v.data, j))

def splice(X, i, v, main, ok=True):
    b = X.a.buf
    return edit(X, add(b.size, v.size), [('the part before the insertion is kept', 0, i, old(X, 0)),
        ('the inserted text is in place', i, v.size, src(X, v)),
        ('the part after the insertion follows it', add(i, v.size), sub(b.size, i), old(X, i))], main, ok)

def clip(X):
    b, i = X.a.buf, X.a.index
    return Ite(gt(i, b.size), b.size, Ite(ge(i, 0), i, Ite(lt(add(i, b.size), 0), 0, add(i, b.size))))

def absent(f):
    """operations on a null buffer: invalid result and no effect"""
    def post(X):
        if X.a.buf.absent:
            return [('B01', 'no buffer gives an invalid view', X.r.invalid)] if isinstance(X.r, V) else []
        return f(X)
    return post

# ---- the insertion every editing operation relies on
class Insert(BufContract):
    def apply(s, ex, st, vs, node):
        p, index, sv = vs
        if not isinstance(p, OPtr): ex.unsupported('buffer argument', node)
        b = read_buf(ex, st, ex.load(st, ('c', p.cell, p.path, BUFP_T), node))
        if b.none or not b.ok:
            ex.oblige(st, False, 'safe', 'the buffer argument of %s is a live, initialised buffer' % s.name, node)
            st.assume(False); return []
        names = ['size is not negative', 'size is at most the capacity', 'capacity is an int', 'the content is terminated', 'the memory is large enough']
        for nm, c in zip(names, inv(b, st.mem.rd)): ex.oblige(st, c, 'safe', 'buffer argument of %s: %s' % (s.name, nm), node)
        v = V(sv['data'], sv['size'])
        ex.oblige(st, And(ge(v.size, 0), Implies(eq(v.data, 0), eq(v.size, 0))), 'safe', 'argument of %s is a well formed view' % s.name, node)
        ex.access(st, v.data, v.size, False, node)
        ex.oblige(st, Or(eq(v.size, 0), And(le(b.c, v.data), le(v.end, add(b.c, b.size))), le(v.end, b.addr), le(add(b.addr, b.n), v.data)), 'safe',
                  'argument of %s lies in the content or outside the buffer' % s.name, node)
        out = []
        for s1, dyn in ex.branch(st, ne(b.af, 0)):
            b1 = Bf(**{**b.__dict__, 'dyn': dyn})
            total = add(b.size, v.size)
            grow = And(gt(total, b.cap), le(total, INT_MAX)) if dyn else False
            for s2, g in ([(s1, False)] if grow is False or ex.prove(s1, Not(grow), 3000) else ex.branch(s1, grow)):
                if g and not ex.record: continue
                X = SX(ex, ex.base); X.applying = True; X.step = ex.step; X.sc = {}
                X.mem0 = s2.mem
                X.a.buf, X.a.index, X.a.str = b1, index, v
                n = Bf(**b1.__dict__)
                if g:
                    n.cap = roundup(total, ex.step)
                    n.n = add(n.cap, HS + 1)
                    ex.oblige(s2, s2.blocks[b.bid]['kind'] == 'heap' and not s2.g.get('fixed'), 'safe', 'only a heap block is reallocated', node)
                    s2.g = dict(s2.g); s2.g['allocs'] = s2.g.get('allocs', 0) + 1
                    n.bid = realloc(ex, s2, b.bid, n.n)
                    n.addr = s2.blocks[n.bid]['addr']
                    ex.store_lv(s2, ('c', p.cell, p.path, BUFP_T), n.addr, node)
                cell = s2.blocks[n.bid]['cell']
                n.size = fresh_int('size')
                s2.assume(And(ge(n.size, 0), le(n.size, n.cap)))
                hd = dict(s2.store[cell]); hd['size'] = n.size; hd['capacity'] = n.cap
                s2.store[cell] = hd
                ex.note_write(s2, n.c, add(n.cap, 1), s2.regions['blk%d' % n.bid], node)
                s2.mem = s2.mem.upd('h', n.c, add(n.cap, 1), ex.th.new_base())
                X.mem1 = s2.mem; X.n.buf = n; X.r = None
                s2.assume(eq(s2.mem.rd(add(n.c, n.size)), 0))
                for _, _, c in s.post(X): s2.assume(c)
                out.append((s2, None))
        return out

Insert('insert_strview_into_buf', [('buf', 'buf**!'), ('index', 'int'), ('str', 'bview')], ret='void', private=True, modular=True, steps=(16, 1, 7),
       post=lambda X: splice(X, clip(X), X.a.str, 'B02'), budget=2)

# ---- views and single operations
C('strbuf_view', [('buf', 'buf**')], props='B01 B02', post=absent(lambda X: [isview(X, 'B02')] + unchanged(X, 'B02')))

C('strbuf_assign', [('buf', 'buf**'), ('str', 'bview')], props='B01 B02 B04 B05 B06', steps=(16, 1, 7), budget=2,
  post=absent(lambda X: [isview(X, 'B02')] + edit(X, X.a.str.size, [('the content is the assigned text', 0, X.a.str.size, src(X, X.a.str))], 'B02')))

def ins(name, params, index, ok=None, view='bview', props='B01 B02 B04 B05 B06', **kw):
    def post(X):
        o = True if ok is None else ok(X)
        i = index(X)
        out = [isview(X, 'B02')]
        if o is True: return out + splice(X, i, X.a.str, 'B02')
        if X.concrete and not o: return out + unchanged(X, 'B02', 'a position outside the content changes nothing')
        for t, l, c in splice(X, i, X.a.str, 'B02'): out.append((t, l, Implies(o, c)))
        for t, l, c in unchanged(X, 'B02', 'a position outside the content changes nothing'): out.append((t, l, Implies(Not(o), c)))
        return out
    C(name + '_strview', params + [('str', 'bview')], post=absent(post), props=props, **kw)
    C(name + '_cstr', params + [('str', 'bcstr')], post=absent(post), props=props, **kw)

ins('strbuf_append', [('buf', 'buf**')], lambda X: X.a.buf.size)
ins('strbuf_prepend', [('buf', 'buf**')], lambda X: 0)
ins('strbuf_insert_at_index', [('buf', 'buf**'), ('index', 'int')], clip)
def inside(p): return lambda X: And(le(X.a.buf.c, p(X)), le(p(X), add(X.a.buf.c, X.a.buf.size)))
ins('strbuf_insert_before', [('buf', 'buf**'), ('dst', 'bview')], lambda X: sub(X.a.dst.data, X.a.buf.c), inside(lambda X: X.a.dst.data))
ins('strbuf_insert_after', [('buf', 'buf**'), ('dst', 'bview')], lambda X: sub(X.a.dst.end, X.a.buf.c), lambda X: And(X.a.dst.valid, inside(lambda X: X.a.dst.end)(X)))

C('strbuf_append_char', [('buf', 'buf**'), ('ch', 'char')], props='B01 B02 B04 B05 B06', steps=(16, 1, 7),
  post=absent(lambda X: [isview(X, 'B02')] + edit(X, add(X.a.buf.size, 1), [('the old content is kept', 0, X.a.buf.size, old(X, 0)),
     ('the character follows it', X.a.buf.size, 1, lambda j: X.a.ch)], 'B02')))

# ---- capacity
def shrink(X):
    if not X.a.buf.dyn: return [isview(X, 'B06')] + unchanged(X, 'B04')
    return [isview(X, 'B06'), ('B06', 'capacity equals size', eq(X.n.buf.cap, X.a.buf.size))] + kept(X, 'B06')
C('strbuf_shrink', [('buf', 'buf**')], props='B01 B04 B05 B06', post=absent(shrink))
def grow(X):
    if not X.a.buf.dyn: return [('B04', 'growing a fixed buffer reports an invalid view', X.r.invalid)] + unchanged(X, 'B04')
    return [isview(X, 'B06'), ('B06', 'capacity is at least what was asked for', ge(X.n.buf.cap, X.a.min_size)), ('B06', 'capacity does not shrink', ge(X.n.buf.cap, X.a.buf.cap))] + kept(X, 'B06')
C('strbuf_grow', [('buf', 'buf**'), ('min_size', 'int')], props='B01 B04 B05 B06', post=absent(grow))

# ---- release
def heap(X):
    """blocks obtained from the allocator that are alive afterwards: [(address, size)]"""
    if X.concrete: return X.heap()
    return [(b['addr'], b['n']) for b in X.st1.blocks.values() if b['alive'] and b['kind'] == 'heap']

def destroy(X):
    b, n = X.a.buf, X.n.buf
    if b.null: return []
    out = [('B05 B09 B01', 'the pointer is null afterwards', n.none)]
    out.append(('B05', 'the block is freed', len(heap(X)) == 0))
    if not b.absent and not b.dyn: out.append(('B05 B04', 'destroying a fixed buffer leaves its memory', X.all1(b.c, add(b.c, add(b.cap, 1)), lambda k: eq(X.H1(k), X.H(k)))))
    return out
C('strbuf_destroy', [('buf', 'buf**')], ret='void', props='B01 B04 B05 B09', post=destroy, releases=True)

def to_cstr(X):
    b, n = X.a.buf, X.n.buf
    if b.absent: return [('B09 B01', 'no buffer gives a null pointer', eq(X.r, 0))]
    out = [('B09 B05', 'the pointer is null afterwards', n.none)]
    out.append(('B09', 'the string is the content', X.all1(X.r, add(X.r, b.size), lambda k: eq(X.H1(k), X.H(add(b.c, sub(k, X.r)))))))
    out.append(('B09', 'a zero follows the content', eq(X.H1(add(X.r, b.size)), 0)))
    h = heap(X)
    if b.dyn:
        out.append(('B05 B09', 'the result is the only block left', And(len(h) == 1, eq(h[0][0], X.r) if h else False)))
        out.append(('B09', 'the block was shrunk to fit', eq(h[0][1], add(b.size, 1)) if h else False))
    else: out.append(('B09 B04', 'the result of a fixed buffer is the content in place', eq(X.r, b.c)))
    return out
C('strbuf_to_cstr', [('buf', 'buf**')], ret='ptr', props='B01 B04 B05 B09', post=to_cstr, releases=True)

# ---- creation
def own_setup(ex, st, sc, X):
    ad, af = X.g.own
    if sc['allocator'] == 'null':
        ex.models['strbuf_default_allocator'] = lambda ex, st: {m: ad if m == 'app_data' else af for m, u in ex.fields(ALLOC_T)}

def created(X, ok, cap, main='B09'):
    r, (ad, af) = X.r, X.g.own
    h = heap(X)
    ok = And(ne(af, 0), ok)
    if r.none: return [(main, 'null only without an allocator or beyond the int range', Not(ok)), ('B05 B09', 'nothing is allocated then', len(h) == 0)]
    out = [(main, 'a buffer only with an allocator and within the int range', ok), ('B01 ' + main, 'the result is an initialised buffer', r.ok)]
    if not r.ok: return out
    H1 = X.H1
    out += [('B01 ' + main, 'the new buffer is well formed', c) for c in inv(r, H1)]
    out.append(('B09', 'capacity is exactly what was asked for', eq(r.cap, cap)))
    out.append(('B05', 'the buffer keeps the allocator and its data', And(eq(r.ad, ad), eq(r.af, af))))
    out.append(('B05', 'exactly one block is allocated', And(len(h) == 1, eq(h[0][0], r.addr) if h else False)))
    return out
C('strbuf_create_empty', [('capacity', 'size'), ('allocator', 'alloc*')], ret='buf*', props='B01 B05 B09', setup=own_setup,
  post=lambda X: created(X, le(X.a.capacity, INT_MAX), X.a.capacity) + ([('B09', 'it is empty', eq(X.r.size, 0))] if X.r.ok and not X.r.none else []))
def create_init(X):
    v = X.a.str
    out = created(X, True, v.size)
    if X.r.ok and not X.r.none:
        out += [('B09', 'its size is that of the initial text', eq(X.r.size, v.size)),
                ('B09', 'its content is the initial text', X.all1(X.r.c, add(X.r.c, v.size), lambda k: eq(X.H1(k), X.H(add(v.data, sub(k, X.r.c))))))]
    return out
C('strbuf_create_init', [('str', 'bview'), ('allocator', 'alloc*')], ret='buf*', props='B01 B05 B09', setup=own_setup, post=create_init)

def fixed_setup(ex, st, sc, X):
    st.g = dict(st.g); st.g['fixed'] = True
class Fixed(BufContract):
    def scenarios(s):
        for x in ('null', 'ok'): yield {'addr': x, '_step': 16}
    def bind(s, ex, st, sc, X):
        X.step = 16
        if ex.offsetof(BUF_T, 'cstr') != HS: raise Unsupported('another buffer header')
        n = z3.Int('addr_size'); st.assume(z3.And(n >= 0, n < 2**64))
        X.a.addr_size = n
        st.g = dict(st.g); st.g['fixed'] = True
        if sc['addr'] == 'null': X.a.addr = 0; return [0, n]
        a = z3.Int('addr'); st.assume(z3.And(a >= 4096, a + n <= ADDR_MAX))
        X.a.addr = a
        new_block(ex, st, a, n, kind='fixed')
        return [a, n]
def create_fixed(X):
    r, a, n = X.r, X.a.addr, X.a.addr_size
    ok = And(ne(a, 0), eq(fmod(a, 8), 0), gt(n, HS))
    if r.none: return [('B09', 'null only for memory that is null, unaligned or too small', Not(ok))]
    out = [('B09', 'a buffer only in aligned memory larger than the header', ok), ('B01 B09', 'the result is an initialised buffer', r.ok)]
    if not r.ok: return out
    out += [('B01 B09', 'the new buffer is well formed', c) for c in inv(r, X.H1)]
    out += [('B09', 'the buffer is in the given memory', eq(r.addr, a)), ('B09', 'it is empty', eq(r.size, 0)),
            ('B09', 'it gets all the space but the header and one byte', eq(r.cap, Ite(le(sub(n, HS + 1), INT_MAX), sub(n, HS + 1), INT_MAX))),
            ('B09 B04', 'it has no allocator', eq(r.af, 0))]
    return out
Fixed('strbuf_create_fixed', [('addr', 'ptr'), ('addr_size', 'size')], ret='buf*', props='B01 B04 B09', post=create_fixed)

# ---- formatted output
def fmt_setup(key):
    def f(ex, st, sc, X):
        st.g = dict(st.g)
        st.g['topva'] = key
    return f
def text(X, err):
    """(characters, length) the formatter gives for the arguments of the call"""
    if X.concrete: return X.text()
    T, L = text_of(X.ex, None, X.a.format, ('ARGS', '0'), err)
    return (lambda j: T(Z(I(j)))), L
def formatted(append, err):
    def post(X):
        b = X.a.buf
        T, L = text(X, err)
        ok = ge(L, 0)
        if append: r = edit(X, add(b.size, L), [('the old content is kept', 0, b.size, old(X, 0)), ('the formatted text follows it', b.size, L, T)], 'B07', ok, ovf='B07', capfail=err)
        else: r = edit(X, L, [('the content is the formatted text', 0, L, T)], 'B07', ok, ovf='B07', capfail=err)
        return [isview(X, 'B07')] + r
    return absent(post)
for nm, err in (('printf', True), ('prnf', False)):
    for ap in (False, True):
        a = 'append_' if ap else ''
        C('strbuf_%s%s' % (a, nm), [('buf', 'buf**'), ('format', 'fmt')], props='B01 B04 B05 B06 B07', setup=fmt_setup('ARGS'), steps=(16, 1, 7), budget=2, variadic=True, post=formatted(ap, err), fmtr=nm)
        C('strbuf_%sv%s' % (a, nm), [('buf', 'buf**'), ('format', 'fmt'), ('va', 'va')], va='ARGS', props='B01 B04 B05 B06 B07', steps=(16, 1, 7), budget=2, post=formatted(ap, err), fmtr=nm)

# ---- fetching
def fetch_setup(ex, st, sc, X):
    b = X.a.buf
    if b.absent: return
    st.g = dict(st.g)
    def h(ex, st, f, vs, node):
        dst, space, v = vs
        sp = sub(b.cap, b.size)
        if not ex.record: ex.unsupported('fetch in a loop', node)
        ex.oblige(st, And(eq(dst, add(b.c, b.size)) if not isinstance(dst, (OPtr, Fn)) else False), 'post:B10', 'the fetcher is given the end of the content', node)
        ex.oblige(st, eq(space, sp), 'post:B10', 'the fetcher is offered exactly the free space', node)
        ex.oblige(st, eq(v, X.a.fetch_vars) if not isinstance(v, (OPtr, Fn)) else False, 'post:B10', 'the fetcher gets the variables of the caller', node)
        ex.oblige(st, len(st.g.get('fetched', ())) == 0, 'post:B10', 'the fetcher is called once', node)
        r = fresh_int('fetched'); st.assume(z3.And(r >= -2**31, r < 2**31))
        hb = ex.th.new_base()
        reg = ex.access(st, dst, space, True, node)
        ex.note_write(st, dst, space, reg, node)
        st.mem = st.mem.upd('h', I(dst), I(space), hb)
        st.g = dict(st.g); st.g['fetched'] = st.g.get('fetched', ()) + ((r, hb),)
        return [(st, r)]
    st.g['fetch'] = (X.a.strbuf_fetcher, h)
def fetched(X):
    """[(result, byte at address)] of the fetcher's calls"""
    if X.concrete: return X.fetched()
    return [(r, hb.rd) for r, hb in X.st1.g.get('fetched', ())]
def using(X):
    b, n = X.a.buf, X.n.buf
    F = fetched(X)
    if b.absent: return [('B01', 'no buffer gives an invalid view', X.r.invalid), ('B10', 'without a buffer nothing is fetched', len(F) == 0)]
    if len(F) != 1: return [('B10', 'the fetcher is called once', False)]
    r, D = F[0]
    ok = And(ge(r, 0), le(r, sub(b.cap, b.size)))
    return [('B10', 'a result within the space offered gives a view of the content', Implies(ok, X.r.same(n.view))),
            ('B10', 'a result outside the space offered gives an invalid view', Implies(Not(ok), X.r.invalid)),
            ('B10', 'the size grows by the number of bytes delivered', Implies(ok, eq(n.size, add(b.size, r)))),
            ('B10', 'the old content is kept', Implies(ok, X.all1(n.c, add(n.c, b.size), lambda k: eq(X.H1(k), X.H(add(b.c, sub(k, n.c))))))),
            ('B10', 'the bytes delivered follow the content', Implies(ok, X.all1(add(n.c, b.size), add(n.c, n.size), lambda k: eq(X.H1(k), D(add(b.c, sub(k, n.c))))))),
            ('B10 B04', 'a result outside the space offered empties the buffer', Implies(Not(ok), eq(n.size, 0))),
            ('B10 B06', 'fetching keeps address and capacity', And(eq(n.addr, b.addr), eq(n.cap, b.cap)))]
C('strbuf_append_using', [('buf', 'buf**'), ('strbuf_fetcher', 'fetcher'), ('fetch_vars', 'ptr?')], props='B01 B04 B05 B06 B10', setup=fetch_setup, post=using)

# ---- concatenation of any number of views
class CatArgs:
    """the views passed to a concatenation: D(j), N(j) for 0 <= j < n, OFF(j): length of the first j of them"""
    def __init__(s, ex, st, sc, X):
        i = z3.IntSort()
        s.D, s.N, s.OFF = z3.Function('ARG_DATA', i, i), z3.Function('ARG_SIZE', i, i), z3.Function('OFF', i, i)
        D, N, OFF = s.D, s.N, s.OFF
        b = s.b = X.a.buf
        n = s.n = X.a.n_args
        s.js, s.ks = z3.Int('j_'), z3.Int('k_')
        j = z3.Int('j')
        th = ex.th
        def ax(body, pats): st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(n)), Z(B(body))), patterns=pats))
        ax(And(ge(N(j), 0), le(N(j), INT_MAX), Implies(eq(D(j), 0), eq(N(j), 0)), Or(eq(D(j), 0), And(ge(D(j), 4096), le(D(j) + N(j), ADDR_MAX)))), [D(j)])
        ax(And(ge(N(j), 0), le(N(j), INT_MAX)), [N(j)])
        if not b.absent:
            ax(Or(s.inc(j), s.apart(j, b.addr, b.n)), [D(j)])
        # prefix sums; the two consequences of the definition are proved by induction here
        st.assume(OFF(0) == 0)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(n)), OFF(j + 1) == OFF(j) + N(j)), patterns=[N(j)]))
        # an arbitrary byte of an arbitrary argument, if there is any
        s.W = W = z3.And(s.js >= 0, s.js < Z(n), s.ks >= 0, s.ks < N(s.js))
        if ex.record:
            i = z3.Int('i!'); t = st.copy(); t.assume(z3.And(0 <= i, i < Z(n), N(i) >= 0))
            P1 = lambda x: OFF(x) >= 0
            ex.oblige(st, P1(0), 'post:B03', 'lemma: lengths of prefixes are not negative (base)')
            t1 = t.copy(); t1.assume(P1(i)); ex.oblige(t1, P1(i + 1), 'post:B03', 'lemma: lengths of prefixes are not negative (step)')
            P2 = lambda x: OFF(s.js) + N(s.js) <= OFF(x)
            ex.oblige(st, Implies(W, P2(s.js + 1)), 'post:B03', 'lemma: a prefix covers its arguments (base)')
            t1 = t.copy(); t1.assume(W); t1.assume(i > s.js); t1.assume(P2(i)); ex.oblige(t1, P2(i + 1), 'post:B03', 'lemma: a prefix covers its arguments (step)')
            P3 = lambda x: OFF(x) <= OFF(Z(n))
            ex.oblige(st, P3(Z(n)), 'post:B03', 'lemma: a prefix is no longer than the whole (base)')
            t1 = t.copy(); t1.assume(P3(i + 1)); ex.oblige(t1, P3(i), 'post:B03', 'lemma: a prefix is no longer than the whole (step down)')
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= Z(n)), z3.And(OFF(j) >= 0, OFF(j) <= OFF(Z(n)))), patterns=[OFF(j)]))
        if True:
            st.assume(z3.ForAll([j], z3.Implies(z3.And(W, s.js < j, j <= Z(n)), OFF(s.js) + N(s.js) <= OFF(j)), patterns=[OFF(j)]))
        st.g = dict(st.g)
        st.g['families'] = st.g.get('families', ()) + (s.family,)
        st.g['va'] = dict(st.g.get('va', {})); st.g['va']['ARGS'] = s.take
    def inc(s, j): return And(le(s.b.c, s.D(j)), le(s.D(j) + s.N(j), add(s.b.c, s.b.size)))
    def apart(s, j, a, n): return Or(le(s.D(j) + s.N(j), a), le(add(a, n), s.D(j)))
    def contains(s, j): return And(le(s.b.c, s.D(j)), lt(s.D(j), add(s.b.c, s.b.size)))
    def family(s, st, a, n):
        j = z3.Int('j')
        if s.b.absent: return
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(s.n)), Z(B(Or(s.inc(j), s.apart(j, a, n))))), patterns=[s.D(j)]))
    def take(s, ex, st, lv, v, ty, node):
        i = v['idx']
        ex.oblige(st, And(ge(i, 0), lt(i, s.n)), 'post:B03 B01', 'only the arguments passed are taken', node)
        if not (ty.k == 'struct' and [n_ for n_, _ in ex.fields(ty)] == ['data', 'size']): ex.unsupported('va_arg of another type', node)
        w = dict(v); w['idx'] = add(i, 1)
        ex.store_lv(st, ('c', lv[1], lv[2], None), w, node)
        d, n = s.D(Z(I(i))), s.N(Z(I(i)))
        out = []
        for q, inside in ([(st, False)] if s.b.absent else ex.branch(st, s.inc(Z(I(i))))):
            if not inside:
                q.regions = dict(q.regions); q.regions['va%d' % len(q.regions)] = Region(d, n, 'va')
            out.append((q, {'data': d, 'size': n}))
        return out
    def gen(s, ex, st, info):
        """candidate invariants over the number of arguments taken so far"""
        OFF, js, ks = s.OFF, s.js, s.ks
        idx = [l for l in info['ints'] if l.p and l.p[-1] == 'idx']
        cnt = [(str(l), l.get) for l in idx]
        mark = lambda s_, f: None
        for nm, f in cnt:
            T = lambda q, f=f: OFF(Z(I(f(q))))
            for l in info['ints']:
                if l in idx: continue
                yield '%s==OFF(%s)' % (l, nm), (lambda q, l=l, T=T: eq(l.get(q), T(q))), None
                for b in info['bools']:
                    for sg in (True, False):
                        g = lambda q, b=b, sg=sg: B(b.get(q)) if sg else Not(B(b.get(q)))
                        yield '%s%s=>%s==OFF(%s)' % ('' if sg else '!', b, l, nm), (lambda q, l=l, T=T, g=g: Implies(g(q), eq(l.get(q), T(q)))), None
            for b in info['bools']:
                for sg in (True, False):
                    g = lambda q, b=b, sg=sg: B(b.get(q)) if sg else Not(B(b.get(q)))
                    yield 'b=>overflow', (lambda q, T=T, g=g: Implies(g(q), gt(T(q), INT_MAX))), None
                    yield 'b=>fits', (lambda q, T=T, g=g: Implies(g(q), le(T(q), INT_MAX))), None
                    yield 'b=>no alias', (lambda q, f=f, g=g: Implies(g(q), forall(0, f(q), lambda k: Not(s.contains(k)), lambda k: s.D(k)))), None
                    if hasattr(s, 'jw'): yield 'b=alias', (lambda q, f=f, g=g: Implies(gt(f(q), s.jw), g(q))), None
                    yield 'b const', (lambda q, g=g, g0=(B(b.v0) if sg else Not(B(b.v0))) if not isinstance(b.v0, Undef) else None: B(g(q)) if g0 is True else False), None
            yield 'fits', (lambda q, T=T: le(T(q), INT_MAX)), None
            for bl in st.blocks.values():
                if not bl['alive']: continue
                ca = add(bl['addr'], bl['hsize'])
                for o in dedup([0] + [x for x in info['ai'] if not isinstance(x, int)][:4]):
                    a = add(add(add(ca, o), OFF(js)), ks)
                    yield 'argument in place', (lambda q, f=f, a=a: Implies(And(s.W, gt(f(q), js)), eq(q.mem.rd(a), ex.base.H(s.D(js) + ks)))), (lambda q, a=a: a)

def dedup(xs):
    out = []
    for x in xs:
        if not any((isinstance(x, int) and isinstance(y, int) and x == y) or (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)) for y in out): out.append(x)
    return out

def cat_setup(ex, st, sc, X):
    st.g = dict(st.g); st.g['topva'] = 'ARGS'
    st.assume(And(ge(X.a.n_args, 0), lt(X.a.n_args, INT_MAX)))
    X.cat = c = CatArgs(ex, st, sc, X)
    b = X.a.buf
    j = z3.Int('j')
    if sc.get('alias') == 'no':
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < Z(X.a.n_args)), Z(B(Not(c.contains(j))))), patterns=[c.D(j)]))
    if sc.get('alias') == 'yes':
        c.jw = z3.Int('jw')
        st.assume(And(ge(c.jw, 0), lt(c.jw, X.a.n_args), c.contains(c.jw), gt(c.N(c.jw), 0)))
    if not b.absent: ex.hints.append(Gen(c.gen))
def cat_more(sc):
    if sc['buf'] in ('null', 'none'): yield sc; return
    for al in (('no', 'yes') if sc['buf'] == 'fix' else ('any',)):
        yield {**sc, 'alias': al}
def cat(X):
    b, n = X.a.buf, X.n.buf
    if b.absent: return [('B01', 'no buffer gives an invalid view', X.r.invalid)]
    out = [isview(X, 'B03')]
    if X.concrete:
        vs = X.args(); total = sum(v.size for v in vs)
        alias = any(v.size and b.c <= v.data < b.c + b.size for v in vs)
        edge = any(not v.size and b.c <= v.data < b.c + b.size for v in vs)
        joined = [X.H(v.data + k) for v in vs for k in range(v.size)] if total < 10**6 else None
    else:
        c = X.cat; total = c.OFF(Z(X.a.n_args)); alias = X.sc.get('alias') == 'yes'; edge = False
    fits = And(le(total, b.limit), True if b.dyn else Not(alias))
    t = tags(X, 'B03')
    if not (X.concrete and edge and not b.dyn): out.append((t, 'the size is that of all arguments together', Implies(fits, eq(n.size, total))))
    out.append(('B03 ' + ('B06' if b.dyn else 'B04'), 'what does not fit, or a fixed buffer among its own arguments, gives an empty buffer', Implies(Not(fits), eq(n.size, 0))))
    if X.concrete:
        if joined is not None and fits and not (edge and not b.dyn): out.append((t, 'every argument is in place', [X.H1(n.c + k) for k in range(n.size)] == joined))
    else:
        out.append((t, 'every argument is in place', Implies(And(c.W, fits), eq(X.H1(add(add(n.c, c.OFF(c.js)), c.ks)), X.H(c.D(c.js) + c.ks)))))
        out.append(('B01 B03', 'the arguments are not modified', Implies(And(c.W, Not(c.inc(c.js))), eq(X.H1(c.D(c.js) + c.ks), X.H(c.D(c.js) + c.ks)))))
    if b.dyn:
        grow = And(fits, gt(total, b.cap))
        out.append(('B06', 'capacity grows exactly when needed, to the needed size rounded up', eq(n.cap, Ite(grow, roundup(total, X.step), b.cap))))
        out.append(('B06', 'the buffer moves only to grow', Implies(Not(grow), eq(n.addr, b.addr))))
    return out
C('strbuf_vcat', [('buf', 'buf**'), ('n_args', 'int'), ('va', 'va')], va='ARGS', props='B01 B03 B04 B05 B06', setup=cat_setup, more=cat_more, post=cat, steps=(16, 7), budget=3)
C('_strbuf_cat', [('buf', 'buf**'), ('n_args', 'int')], props='B01 B03 B04 B05 B06', setup=cat_setup, more=cat_more, post=cat, variadic=True, budget=3)

# ---- removal of characters
class Kept:
    """R(p): number of characters in [c, p) of the old content that are not in the list; p_: an arbitrary old position"""
    def __init__(s, ex, st, sc, X):
        b = s.b = X.a.buf
        lst = s.lst = X.a.stripchars
        s.R = R = z3.Function('KEPT', z3.IntSort(), z3.IntSort())
        s.p = z3.Int('p_')
        s.lo, s.hi = b.c, add(b.c, b.size)
        H = ex.base.H
        a, i = z3.Int('a'), z3.Int('i!')
        lo, hi = Z(s.lo), Z(s.hi)
        s.keep = keep = lambda x: Z(B(Not(X.IN(lst, H(x)))))
        st.assume(R(lo) == 0)
        st.assume(z3.ForAll([a], z3.Implies(z3.And(lo <= a, a < hi), R(a + 1) == R(a) + z3.If(keep(a), 1, 0)), patterns=[H(a)]))
        s.W = z3.And(lo <= s.p, s.p < hi, keep(s.p))
        def lemma(nm, pre, P, start):
            ex.oblige(st, Implies(pre, P(start)), 'post:B08', 'lemma: %s (base)' % nm)
            t = st.copy(); t.assume(pre); t.assume(And(ge(i, start), lt(i, hi))); t.assume(P(i)); t.assume(R(i + 1) == R(i) + z3.If(keep(i), 1, 0))
            ex.oblige(t, P(i + 1), 'post:B08', 'lemma: %s (step)' % nm)
            st.assume(z3.ForAll([a], z3.Implies(z3.And(pre, start <= a, a <= hi), P(a)), patterns=[R(a)]))
        lemma('no more characters are kept than were there', z3.BoolVal(True), lambda x: z3.And(R(x) >= 0, R(x) <= x - lo), lo)
        lemma('a kept character is counted from its place on', s.W, lambda x: R(x) >= R(s.p) + 1, s.p + 1)
        ex.th.axiom(z3.BoolVal(True))
        s.H = H; s.X = X
    def gen(s, ex, st, info):
        H, R, lst = s.H, s.R, s.lst
        if isinstance(lst.data, int): return
        pos = info['pos']
        end = add(s.hi, 1)
        for l in info['arrs']:
            v = l.v0
            if list(v.leaves) != [()]: continue
            g = lambda q, l=l: get_path(q.store[l.c], l.p)
            x = z3.Int('x')
            def member(q, g=g, sg=True):
                a = g(q).leaves[()]
                return z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < 256, z3.Select(a, x) != 0), Z(B(s.X.IN(lst, s8(x))))), patterns=[z3.Select(a, x)] if z3.is_const(a) else [])
            def nonmember(q, g=g):
                a = g(q).leaves[()]
                return z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < 256, z3.Select(a, x) == 0), Z(B(s.X.IN(lst, s8(x))))), patterns=[z3.Select(a, x)] if z3.is_const(a) else [])
            yield 'only listed', member, None
            for nm, f, _ in pos:
                yield 'listed up to ' + nm, (lambda q, g=g, f=f: forall(lst.data, f(q), lambda k: Z(B(ne(g(q).get(u8(H(k))), 0))), lambda k: H(k))), None
                yield 'listed from ' + nm, (lambda q, g=g, f=f: forall(f(q), lst.end, lambda k: Z(B(ne(g(q).get(u8(H(k))), 0))), lambda k: H(k))), None
        if not st.mem.log and not info['regions']: return
        for nm, f, p0 in pos:
            F = lambda q, f=f: f(q)
            if not info['near'](f, s.lo, s.hi): continue
            yield 'prefix kept ' + nm, (lambda q, F=F: Implies(And(s.W, gt(F(q), s.p)), eq(q.mem.rd(add(s.lo, R(s.p))), H(s.p)))), (lambda q: add(s.lo, R(s.p)))
            for l in info['ptrs']:
                yield '%s==c+KEPT(%s)' % (l, nm), (lambda q, l=l, F=F: And(eq(l.get(q), add(s.lo, R(Z(I(F(q)))))))), None
            for l in info['ints']:
                yield '%s==KEPT(%s)' % (l, nm), (lambda q, l=l, F=F: eq(l.get(q), R(Z(I(F(q)))))), None
            for nm2, f2, _ in pos:
                if nm2 == nm or not info['near'](f2, s.lo, s.hi): continue
                # the rest of the content, moved down by f2 - f
                yield 'rest at %s from %s' % (nm, nm2), (lambda q, F=F, f2=f2: forall(F(q), add(F(q), sub(end, f2(q))), lambda k: eq(q.mem.rd(k), H(Z(add(sub(k, F(q)), f2(q))))), pat(q))), None
def pat(q):
    for u in reversed(q.mem.log):
        if u[0] == 'h': return lambda k: u[3].H(k)
    return lambda k: q.mem.base.H(k)

def strip_setup(ex, st, sc, X):
    b = X.a.buf
    if b.absent: return
    X.kept = k = Kept(ex, st, sc, X)
    ex.hints.append(Gen(k.gen))
def strip(X):
    b, n = X.a.buf, X.n.buf
    lst = X.a.stripchars
    if b.absent: return [('B01', 'no buffer gives an invalid view', X.r.invalid)]
    out = [isview(X, 'B08'), ('B08 B06', 'stripping keeps address and capacity', And(eq(n.addr, b.addr), eq(n.cap, b.cap)))]
    v = lst.valid
    if X.concrete:
        left = [X.H(b.c + k) for k in range(b.size)]
        if v: left = [c for c in left if not X.IN(lst, c)]
        return out + [('B08', 'what is left is every other character in order', [X.H1(n.c + k) for k in range(n.size)] == left)]
    k = X.kept
    out.append(('B08', 'the size is the number of characters kept', Implies(v, eq(n.size, k.R(Z(k.hi))))))
    out.append(('B08', 'every character kept is in its place', Implies(And(v, k.W), eq(X.H1(add(b.c, k.R(k.p))), X.H(k.p)))))
    out += [(t, l, Implies(Not(v), c)) for t, l, c in unchanged(X, 'B08', 'an invalid list changes nothing')]
    return out
C('strbuf_strip_strview', [('buf', 'buf**'), ('stripchars', 'bview')], props='B01 B04 B05 B06 B08', setup=strip_setup, post=strip, budget=3)
C('strbuf_strip_cstr', [('buf', 'buf**'), ('stripchars', 'bcstr')], props='B01 B04 B05 B06 B08', setup=strip_setup, post=strip, budget=3)

# ---- the default allocator over malloc(), realloc() and free()
def m_stdlib(X):
    def one(ex, st, ptr, size, node, what):
        ex.trusted.add(what)
        ob = lambda c, nm: ex.oblige(st, c, 'post:B05', nm, node)
        bid = None
        if isinstance(ptr, (OPtr, Fn)): ob(False, '%s gets the block of the caller' % what); return []
        if not (isinstance(ptr, int) and ptr == 0):
            bid = ex.block_at(st, ptr, node)
            if bid is None: ob(False, '%s gets a block that is still owned' % what); st.assume(False); return []
        if what == 'free':
            if bid is not None: kill_block(ex, st, bid)
            return [(st, None)]
        ob(gt(size, 0), '%s is asked for at least one byte' % what)
        fail = st.copy()
        nb = realloc(ex, st, bid, size)
        return [(st, st.blocks[nb]['addr']), (fail, 0)]
    return {'free': lambda ex, st, vs, n: one(ex, st, vs[0], None, n, 'free'), 'realloc': lambda ex, st, vs, n: one(ex, st, vs[0], vs[1], n, 'realloc'),
            'malloc': lambda ex, st, vs, n: one(ex, st, 0, vs[0], n, 'malloc')}

class StdAlloc(BufContract):
    def scenarios(s):
        for x in ('null', 'block'): yield {'ptr_to_free': x, '_step': 16}
    def bind(s, ex, st, sc, X):
        X.step = 16
        ex.models.update(m_stdlib(X))
        n = z3.Int('size'); st.assume(z3.And(n >= 0, n < 2**40)); X.a.size = n
        ad = fresh_int('app_data'); af = z3.Int('ALLOCATOR')
        c = ex.new_cell(st, {m: ad if m == 'app_data' else af for m, u in ex.fields(ALLOC_T)}, ALLOC_T)
        X.old = None
        if sc['ptr_to_free'] == 'null': return [OPtr(c), 0, n]
        a, m = z3.Int('ptr'), z3.Int('old_size')
        st.assume(z3.And(a >= 4096, a % 8 == 0, m > 0, m < 2**40, a + m <= ADDR_MAX))
        X.old = (a, m)
        new_block(ex, st, a, m, raw=False)
        return [OPtr(c), a, n]
    def common(s, X, st0, s1): return []
    @staticmethod
    def resolve(cfg):
        """the function the default allocator is initialised with"""
        g = cfg.tu('strbuf').globals.get('strbuf_default_allocator')
        def find(n):
            rd = n.j.get('referencedDecl', {})
            if rd.get('kind') == 'FunctionDecl': return rd['name']
            for c in n.inner:
                r = find(c)
                if r: return r
        return g and g[2] is not None and find(g[2]) or 'allocfunc_stdlib'
def std_alloc(X):
    h = heap(X)
    n = X.a.size
    z = eq(n, 0)
    old_kept = And(len(h) == (1 if X.old else 0), And(eq(h[0][0], X.old[0]), eq(h[0][1], X.old[1])) if X.old and h else True)
    out = [('B05', 'size 0 releases the block', Implies(z, len(h) == 0)), ('B05', 'size 0 returns null', Implies(z, eq(X.r, 0))),
           ('B05', 'when there is no memory the old block stays', Implies(And(Not(z), eq(X.r, 0)), old_kept))]
    ok = And(Not(z), ne(X.r, 0))
    one = len(h) == 1
    out.append(('B05', 'the result is the only block', Implies(ok, And(one, eq(h[0][0], X.r) if one else False))))
    out.append(('B05', 'the result is large enough', Implies(ok, ge(h[0][1], n) if one else False)))
    if X.old:
        m = Ite(le(X.old[1], n), X.old[1], n)
        out.append(('B05 B06', 'the content of the block is kept', Implies(ok, X.all1(X.r, add(X.r, m), lambda k: eq(X.H1(k), X.H(add(X.old[0], sub(k, X.r))))))))
    return out
from vf.bufrun import StdRunner
StdAlloc('allocfunc_stdlib', [('this_allocator', 'alloc'), ('ptr_to_free', 'ptr?'), ('size', 'size')], ret='ptr', props='B05', post=std_alloc, runner=StdRunner, resolve=StdAlloc.resolve)
