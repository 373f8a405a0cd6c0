"""Contracts of strview.c (properties S01..S09)."""
from vf.contract import *
from vf.loops import forall
import z3
from vf.engine import abase
from vf.sym import *
from vf.theory import u8, toup

def inside(r, src):
    """r is invalid or a sub-range of src"""
    return Or(r.invalid, And(ge(r.size, 0), ne(src.data, 0), le(src.data, r.data), le(r.end, src.end)))

def IN_pat(X): return lambda k: X.base.H(k)

# ---------------------------------------------------------------- helpers (private, used modularly)
def p_contains_char(X):
    yield 'S01', 'found exactly when the set has the character', Iff(X.r, X.IN(X.a.str, X.a.c))
Contract('contains_char', [('str', 'view'), ('c', 'char')], 'bool', p_contains_char, private=True,
         hints=lambda X: [Pos(lambda k: eq(X.H(k), X.a.c), IN_pat(X))])

def p_memcmp_nocase(X):
    yield 'S01', 'zero exactly when equal ignoring case', Iff(eq(X.r, 0), eq(X.DIFF(X.a.a, X.a.b, X.a.size, True), X.a.size))
def upeq(X, p, q):
    return lambda k: eq(toup(u8(X.H(k))), toup(u8(X.H(add(q, sub(k, p))))))
Contract('memcmp_nocase', [('a', 'rmem:size'), ('b', 'rmem:size'), ('size', 'size')], 'int', p_memcmp_nocase, private=True,
         hints=lambda X: [Pos(upeq(X, X.a.a, X.a.b), IN_pat(X))])

# ---------------------------------------------------------------- S08
def p_cstr(X):
    yield 'S08', 'covers exactly the characters before the terminator', X.r.same(X.a.c_str)
Contract('cstr', [('c_str', 'cstr')], 'view', p_cstr, props='S01 S08')

def p_to_cstr(X):
    a = X.a
    yield 'S08', 'returns the destination', eq(X.r, a.dst)
    n = Ite(lt(sub(a.dst_size, 1), a.str.size), sub(a.dst_size, 1), a.str.size)
    if ne(a.dst, 0) is not False:
        some = gt(a.dst_size, 0)
        yield 'S08', 'terminator', Implies(some, eq(X.H1(add(a.dst, n)), 0))
        yield 'S08', 'copied bytes', Implies(some, X.all1(a.dst, add(a.dst, n), lambda k: eq(X.H1(k), X.H(add(a.str.data, sub(k, a.dst))))))
        yield 'S08', 'no other byte of the destination is written', X.all1(add(a.dst, Ite(some, add(n, 1), 0)), add(a.dst, a.dst_size), lambda k: eq(X.H1(k), X.H(k)))
        yield 'S01', 'nothing but the destination is written', X.frame(lambda k: Or(lt(k, a.dst), ge(k, add(a.dst, a.dst_size))))
Contract('strview_to_cstr', [('dst', 'wmem?:dst_size'), ('dst_size', 'size'), ('str', 'view')], 'ptr', p_to_cstr, props='S01 S08',
         pre=lambda X: [le(X.a.dst_size, 2**46)],
         writes=lambda X: [(X.a.dst, 0 if isinstance(X.a.dst, int) else X.a.dst_size)])

Contract('strview_is_valid', [('str', 'view')], 'bool', lambda X: [('S01', 'valid exactly with data', Iff(X.r, ne(X.a.str.data, 0)))], props='S01')

def p_swap(X):
    yield 'S06 S01', 'exchanged', And(X.n.a.v.same(X.a.b.v), X.n.b.v.same(X.a.a.v))
Contract('strview_swap', [('a', 'view*!'), ('b', 'view*!')], 'void', p_swap, props='S01 S06')

# ---------------------------------------------------------------- S02
def p_match(nocase):
    def post(X):
        a, b = X.a.str1, X.a.str2
        yield 'S02', 'matches exactly when equal', Iff(X.r, And(Iff(a.valid, b.valid), eq(a.size, b.size), eq(X.DIFF(a.data, b.data, a.size, nocase), a.size)))
    return post
def p_starts(nocase):
    def post(X):
        a, b = X.a.str1, X.a.str2
        yield 'S02', 'starts with exactly when a prefix', Iff(X.r, Ite(b.valid, And(ge(a.size, b.size), eq(X.DIFF(a.data, b.data, b.size, nocase), b.size)), Not(a.valid)))
    return post
for nc in (False, True):
    t = '_nocase' if nc else ''
    for suf, k in (('strview', 'view'), ('cstr', 'cstr')):
        h = (lambda X, nc=nc: [Pos((upeq if nc else beq)(X, X.a.str1.data, X.a.str2.data), IN_pat(X))])
        Contract('strview_is_match%s_%s' % (t, suf), [('str1', 'view'), ('str2', k)], 'bool', p_match(nc), props='S01 S02', hints=h)
        Contract('strview_starts_with%s_%s' % (t, suf), [('str1', 'view'), ('str2', k)], 'bool', p_starts(nc), props='S01 S02', hints=h)
def beq(X, p, q): return lambda k: eq(X.H(k), X.H(add(q, sub(k, p))))
def p_compare(X):
    a, b = X.a.str1, X.a.str2
    n = Ite(lt(a.size, b.size), a.size, b.size)
    d = X.DIFF(a.data, b.data, n)
    ca, cb = u8(X.H(add(a.data, d))), u8(X.H(add(b.data, d)))
    yield 'S02', 'sign of the first difference', Implies(lt(d, n), And(Iff(lt(X.r, 0), lt(ca, cb)), Iff(gt(X.r, 0), gt(ca, cb))))
    yield 'S02', 'sign of the size difference', Implies(eq(d, n), And(Iff(lt(X.r, 0), lt(a.size, b.size)), Iff(gt(X.r, 0), gt(a.size, b.size))))
Contract('strview_compare', [('str1', 'view'), ('str2', 'view')], 'int', p_compare, props='S01 S02', hints=lambda X: [Pos(beq(X, X.a.str1.data, X.a.str2.data), IN_pat(X))])

# ---------------------------------------------------------------- S03
def p_trim(start, end):
    def post(X):
        s, D, r = X.a.str, X.a.chars_to_trim, X.r
        yield 'S01', 'the result is part of the source', inside(r, s)
        if not end: yield 'S03', 'the end is untouched', eq(r.end, s.end)
        if not start: yield 'S03', 'the start is untouched', eq(r.data, s.data)
        yield 'S03', 'the result is a part of the source', And(ge(r.size, 0), le(s.data, r.data), le(r.end, s.end))
        isin = lambda k: X.IN(D, X.H(k))
        if start and end:
            # an entirely trimmed source leaves an empty view anywhere inside it
            yield 'S03', 'only characters of the set are removed at the start', X.all(s.data, r.data, isin)
            yield 'S03', 'only characters of the set are removed at the end', X.all(r.end, s.end, isin)
        elif start: yield 'S03', 'only characters of the set are removed at the start', X.all(s.data, r.data, isin)
        else: yield 'S03', 'only characters of the set are removed at the end', X.all(r.end, s.end, isin)
        if start: yield 'S03', 'the first character left is not in the set', Implies(gt(r.size, 0), Not(isin(r.data)))
        if end: yield 'S03', 'the last character left is not in the set', Implies(gt(r.size, 0), Not(isin(sub(r.end, 1))))
    return post
for nm, s_, e_ in (('trim_start', True, False), ('trim_end', False, True), ('trim', True, True)):
    for suf, k in (('strview', 'view'), ('cstr', 'cstr')):
        Contract('strview_%s_%s' % (nm, suf), [('str', 'view'), ('chars_to_trim', k)], 'view', p_trim(s_, e_), props='S01 S03',
                 hints=lambda X: [Pos(lambda k: X.IN(X.a.chars_to_trim, X.H(k)), IN_pat(X))])

# ---------------------------------------------------------------- S04
def occ(X, h, n, nocase): return lambda k: eq(X.DIFF(k, n.data, n.size, nocase), n.size)
def occ_pat(X, n, nocase): return lambda k: X.DIFF(k, n.data, n.size, nocase)
def p_find(first, nocase):
    def post(X):
        h, n, r = X.a.haystack, X.a.needle, X.r
        both = And(h.valid, n.valid)
        f, pt = occ(X, h, n, nocase), occ_pat(X, n, nocase)
        last = sub(add(h.end, 1), n.size)        # one past the last start
        yield 'S01', 'the result is part of the haystack', inside(r, h)
        yield 'S04', 'invalid arguments give no result', Implies(Not(both), r.invalid)
        yield 'S04', 'the result is an occurrence inside the haystack', Or(r.invalid, And(both, eq(r.size, n.size), le(h.data, r.data), le(r.end, h.end), f(r.data)))
        none = lambda lo, hi: X.all(lo, hi, lambda k: Not(f(k)), pt)
        yield 'S04', 'no result only without an occurrence', Implies(And(both, eq(r.data, 0)), none(h.data, last))
        if first: yield 'S04', 'no occurrence further left', Implies(ne(r.data, 0), none(h.data, r.data))
        else: yield 'S04', 'no occurrence further right', Implies(ne(r.data, 0), none(add(r.data, 1), last))
    return post
for first in (True, False):
    for nc in (False, True):
        for suf, k in (('strview', 'view'), ('cstr', 'cstr')):
            Contract('strview_find_%s%s_%s' % ('first' if first else 'last', '_nocase' if nc else '', suf), [('haystack', 'view'), ('needle', k)], 'view',
                     p_find(first, nc), props='S01 S04', hints=lambda X, nc=nc: [Pos(occ(X, X.a.haystack, X.a.needle, nc), occ_pat(X, X.a.needle, nc))])
def p_contains(nocase):
    def post(X):
        h, n = X.a.haystack, X.a.needle
        yield 'S04', 'true exactly when there is an occurrence', Iff(X.r, And(h.valid, n.valid,
            X.ex_(h.data, sub(add(h.end, 1), n.size), occ(X, h, n, nocase), occ_pat(X, n, nocase))))
    return post
for nc in (False, True):
    Contract('strview_contains' + ('_nocase' if nc else ''), [('haystack', 'view'), ('needle', 'view')], 'bool', p_contains(nc), props='S01 S04',
             hints=lambda X, nc=nc: [Pos(occ(X, X.a.haystack, X.a.needle, nc), occ_pat(X, X.a.needle, nc))])

# ---------------------------------------------------------------- S05
def isdel_first(X, s, D, ex):
    par = X.PAR(s.data)
    return lambda k: And(X.IN(D, X.H(k)), Not(And(ex, par(add(k, 1)))))
def isdel_last(X, s, D, ex):
    par = X.PARB(s.end)
    return lambda k: And(X.IN(D, X.H(k)), Not(And(ex, par(k))))
def split_found_first(X, s, r, n, isd):
    p = add(s.data, r.size)
    return And(eq(r.data, s.data), ge(r.size, 0), lt(r.size, s.size), isd(p), X.all(s.data, p, lambda k: Not(isd(k))),
               eq(n.size, sub(sub(s.size, r.size), 1)), eq(n.data, Ite(gt(n.size, 0), add(p, 1), p)))
def split_found_last(X, s, r, n, isd):
    p = add(s.data, n.size)
    return And(eq(n.data, s.data), ge(n.size, 0), lt(n.size, s.size), isd(p), X.all(add(p, 1), s.end, lambda k: Not(isd(k))),
               eq(r.size, sub(sub(s.size, n.size), 1)), eq(r.data, Ite(gt(r.size, 0), add(p, 1), p)))
def remainder_ok(n, s):
    return Or(n.invalid, And(ge(n.size, 0), le(s.data, n.data), le(n.end, s.end)))
def p_split_delim(first):
    def post(X):
        r, D, ex = X.r, X.a.delims, X.a.exclude_quotes
        if X.a.strview_ptr.null:
            yield 'S05 S01', 'a null source gives an invalid view', r.invalid
            return
        s, n = X.a.strview_ptr.v, X.n.strview_ptr.v
        isd = (isdel_first if first else isdel_last)(X, s, D, ex)
        yield 'S01', 'the result is part of the source', inside(r, s)
        yield 'S01', 'the remainder is part of the source', inside(n, s)
        found = And(s.valid, D.valid, n.valid) 
        # without a delimiter: everything is returned, the source becomes invalid
        none = X.all(s.data, s.end, lambda k: Not(isd(k)))
        # the remainder is valid exactly when a delimiter was found
        yield 'S05', 'a cut is at the right delimiter and drops only that', Implies(n.valid, And(s.valid, (split_found_first if first else split_found_last)(X, s, r, n, isd)))
        yield 'S05', 'without a cut the whole source is returned', Implies(Not(n.valid), And(r.same(s), n.invalid))
        yield 'S05', 'no cut only without a delimiter', Implies(Not(n.valid), Or(Not(s.valid), Not(D.valid), none))
    return post
def h_split(first):
    def h(X):
        if X.a.strview_ptr.null: return []
        s, D, ex = X.a.strview_ptr.v, X.a.delims, X.a.exclude_quotes
        isd = (isdel_first if first else isdel_last)(X, s, D, ex)
        par = X.PAR(s.data) if first else X.PARB(s.end)
        return [Pos(isd, IN_pat(X)), Fold(lambda e: And(ex, par(e)), 'bool', 'quotes')]
    return h
for first in (True, False):
    nm = 'strview_split_%s_delim' % ('first' if first else 'last')
    Contract(nm, [('strview_ptr', 'view*'), ('delims', 'cstr'), ('exclude_quotes', 'bool')], 'view', p_split_delim(first), props='S01 S05', hints=h_split(first), pure=True)

# split_all: element i is the first part of remainder i (remainder 0 is the source, remainder i+1 what splitting remainder i leaves)
def rems(X):
    from vf.contract import pure_fns, flat
    I_ = z3.IntSort()
    Rd, Rn = z3.Function('REMd', I_, I_), z3.Function('REMn', I_, I_)
    fr = pure_fns('strview_split_first_delim', 5, 4)
    args = lambda i: [Rd(i), Rn(i)] + flat([X.a.delims, X.a.exclude_quotes])
    first = lambda i: V(fr[0](*args(Z(I(i)))), fr[1](*args(Z(I(i)))))
    rem = lambda i: V(Rd(Z(I(i))), Rn(Z(I(i))))
    i = z3.Int('i')
    if not hasattr(X.g, 'rems'):
        X.g.rems = True
        th = X.ex.th
        th.axiom(z3.And(Rd(0) == Z(X.a.src.data), Rn(0) == Z(X.a.src.size)))
        th.axiom(z3.ForAll([i], z3.Implies(i >= 0, z3.And(Rd(i + 1) == fr[2](*args(i)), Rn(i + 1) == fr[3](*args(i)))), patterns=[th.MARK(i)]))
    return rem, first
def arr_at(a, k):
    bs = [abase(x) for x in a.leaves.values()]
    return [z3.Select(b, Z(I(k))) for b in bs if not z3.is_K(b)]
def elem(a, i):
    e = a.get(i)
    return V(e['data'], e['size'])
def py_split_first(X, s):
    D = {X.H(k) for k in range(X.a.delims.data, X.a.delims.end)} if X.a.delims.valid else set()
    q = False
    for k in range(s.data, s.end):
        if X.H(k) == 34 and X.a.exclude_quotes: q = not q
        if not q and X.H(k) in D:
            n = s.end - k - 1
            return V(s.data, k - s.data), V(k + 1 if n else k, n)
    return s, INVALID
def p_split_all(X):
    c, n, s = X.r, X.a.dst_size, X.a.src
    yield 'S01 S05', 'the count is in range', And(le(0, c), le(c, Ite(gt(n, 0), n, 0)))
    if X.concrete:
        old, new = X.a.dst.v, X.n.dst.v
        parts = []
        while s.valid and len(parts) < n:
            f, s = py_split_first(X, s); parts.append(f)
        yield 'S05', 'each part is the first part of what the previous ones left', c >= len(parts) and all(new[i].same(p) for i, p in enumerate(parts)) if c <= n else False
        yield 'S05', 'splitting stops exactly when the source is used up or the array is full', c == len(parts)
        yield 'S05', 'elements after the last part are untouched', all(new[i].same(old[i]) for i in range(c, n))
        yield 'S01', 'every part is a part of the source', all(inside(new[i], X.a.src) for i in range(min(c, n)))
        return
    rem, first = rems(X)
    X.mark(0, c, sub(c, 1))
    old, new = X.a.dst.v, X.n.dst.v
    at = lambda k: arr_at(new, k)
    yield 'S05', 'each part is the first part of what the previous ones left', forall(0, c, lambda k: elem(new, k).same(first(k)), at)
    yield 'S05', 'splitting goes on only while the source is valid', forall(0, c, lambda k: rem(k).valid, lambda k: rem(k).data)
    yield 'S05', 'splitting stops exactly when the source is used up or the array is full', Or(ge(c, n), Not(rem(c).valid))
    yield 'S05', 'elements after the last part are untouched', forall(c, n, lambda k: elem(new, k).same(elem(old, k)), at)
    yield 'S01', 'every part is a part of the source', forall(0, c, lambda k: inside(elem(new, k), s), at)
def h_split_all(X):
    def gen(ex, st, info):
        rem, first = rems(X)
        old = X.a.dst.v; s0 = X.a.src; n = X.a.dst_size
        views = {}
        for l in info['leaves']:
            if l.p and l.p[-1] in ('data', 'size'): views.setdefault((l.c, l.p[:-1]), {})[l.p[-1]] = l
        arr = info['arrs'] or []
        for l in info['ints']:
            if l.p: continue
            cnt = lambda s, l=l: l.get(s)
            for v in views.values():
                if len(v) < 2: continue
                cur = lambda s, v=v: V(v['data'].get(s), v['size'].get(s))
                yield 'source is remainder', (lambda s, cur=cur, cnt=cnt: cur(s).same(rem(cnt(s)))), cnt
                yield 'source is a part of the source', (lambda s, cur=cur: And(inside(cur(s), s0), Implies(eq(cur(s).data, 0), eq(cur(s).size, 0)), ge(cur(s).size, 0))), None
            yield 'remainders valid', (lambda s, cnt=cnt: forall(0, cnt(s), lambda k: rem(k).valid, lambda k: rem(k).data)), None
            for a in arr:
                at = lambda s, a=a: (lambda k: arr_at(a.get(s), k))
                yield 'parts', (lambda s, a=a, cnt=cnt, at=at: forall(0, cnt(s), lambda k: elem(a.get(s), k).same(first(k)), at(s))), None
                yield 'parts inside', (lambda s, a=a, cnt=cnt, at=at: forall(0, cnt(s), lambda k: inside(elem(a.get(s), k), s0), at(s))), None
                yield 'tail', (lambda s, a=a, cnt=cnt, at=at: forall(cnt(s), n, lambda k: elem(a.get(s), k).same(elem(old, k)), at(s))), None
    return [Gen(gen)]
Contract('strview_split_all', [('dst_size', 'int'), ('dst', 'view[]:dst_size'), ('src', 'view'), ('delims', 'cstr'), ('exclude_quotes', 'bool')], 'int', p_split_all,
         props='S01 S05', pre=lambda X: [ge(X.a.dst_size, 0 if not X.concrete else 1)], hints=h_split_all)

# ---------------------------------------------------------------- S06
def p_sub(X):
    s, r, b, e = X.a.str, X.r, X.a.begin, X.a.end
    yield 'S01', 'the result is part of the source', inside(r, s)
    yield 'S06', 'an empty source gives an empty view at the same place', Implies(Or(eq(s.size, 0), Not(s.valid)), And(eq(r.data, s.data), eq(r.size, 0)))
    b1 = Ite(lt(b, 0), add(s.size, b), b); e1 = Ite(lt(e, 0), add(s.size, e), e)
    ok = And(le(b1, e1), lt(b1, s.size), ge(e1, 0))
    b2 = Ite(lt(b1, 0), 0, b1); e2 = Ite(gt(e1, s.size), s.size, e1)
    yield 'S06', 'the addressed range, clipped to the source', Implies(And(gt(s.size, 0), ok), And(eq(r.data, add(s.data, b2)), eq(r.size, sub(e2, b2))))
    yield 'S06', 'invalid outside the source', Implies(And(gt(s.size, 0), Not(ok)), r.invalid)
Contract('strview_sub', [('str', 'view'), ('begin', 'int'), ('end', 'int')], 'view', p_sub, props='S01 S06')

def clipidx(s, i):
    """number of characters before the cut"""
    k = Ite(lt(i, 0), add(s.size, i), i)
    return Ite(lt(k, 0), 0, Ite(gt(k, s.size), s.size, k))
def cut(s, k): return V(s.data, k), V(add(s.data, k), sub(s.size, k))
def p_split_index(X):
    r = X.r
    if X.a.strview_ptr.null:
        yield 'S06 S01', 'a null source gives an invalid view', r.invalid
        return
    s, n, i = X.a.strview_ptr.v, X.n.strview_ptr.v, X.a.index
    left, right = cut(s, clipidx(s, i))
    yield 'S01', 'the result is part of the source', inside(r, s)
    yield 'S01', 'the remainder is part of the source', inside(n, s)
    yield 'S06', 'returns the addressed part', Ite(ge(i, 0), r.same(left), r.same(right))
    yield 'S06', 'keeps the other part', Ite(ge(i, 0), n.same(right), n.same(left))
Contract('strview_split_index', [('strview_ptr', 'view*'), ('index', 'int')], 'view', p_split_index, props='S01 S06')
Contract('split_index', [('strview_ptr', 'view*!'), ('index', 'int')], 'view', p_split_index, private=True)

def p_pop(X):
    if X.a.strview_ptr.null:
        yield 'S06 S01', 'a null source gives 0', eq(X.r, 0)
        return
    s, n = X.a.strview_ptr.v, X.n.strview_ptr.v
    yield 'S01', 'the remainder is part of the source', inside(n, s)
    yield 'S06', 'an empty source gives 0 and stays', Implies(eq(s.size, 0), And(eq(X.r, 0), n.same(s)))
    yield 'S06', 'returns and removes the first character', Implies(gt(s.size, 0), And(eq(X.r, X.H(s.data)), eq(n.data, add(s.data, 1)), eq(n.size, sub(s.size, 1))))
Contract('strview_pop_first_char', [('strview_ptr', 'view*')], 'char', p_pop, props='S01 S06')

def p_split_pos(leftside):
    def post(X):
        r, pos = X.r, X.a.pos
        if X.a.strview_ptr.null:
            yield 'S06 S01', 'a null source gives an invalid view', r.invalid
            return
        s, n = X.a.strview_ptr.v, X.n.strview_ptr.v
        pt = pos.data if leftside else pos.end
        ok = And(s.valid, pos.valid, le(s.data, pt), le(pt, s.end))
        left, right = cut(s, sub(pt, s.data))
        yield 'S01', 'the result is part of the source', inside(r, s)
        yield 'S01', 'the remainder is part of the source', inside(n, s)
        yield 'S06', 'cut at the position', Implies(ok, And(r.same(left if leftside else right), n.same(right if leftside else left)))
        yield 'S06', 'a position outside changes nothing', Implies(Not(ok), And(r.invalid, n.same(s)))
    return post
for l_ in (True, False):
    Contract('strview_split_' + ('left' if l_ else 'right'), [('strview_ptr', 'view*'), ('pos', 'view')], 'view', p_split_pos(l_), props='S01 S06')

# ---------------------------------------------------------------- S07
CR, LF = 13, 10
def p_split_line(X):
    r = X.r
    if X.a.strview_ptr.null:
        yield 'S07 S01', 'a null source gives an invalid view', r.invalid
        return
    s, n = X.a.strview_ptr.v, X.n.strview_ptr.v
    eol = X.a.eol; e0 = 0 if eol.null else eol.v; e1 = None if eol.null else X.n.eol.v
    yield 'S01', 'the result is part of the source', inside(r, s)
    yield 'S01', 'the remainder is part of the source', inside(n, s)
    istrm = lambda k: Or(eq(X.H(k), CR), eq(X.H(k), LF))
    pairs = lambda x, y: Or(And(eq(x, CR), eq(y, LF)), And(eq(x, LF), eq(y, CR)))
    skip = And(gt(s.size, 0), pairs(e0, X.H(s.data)))
    a = Ite(skip, add(s.data, 1), s.data)          # start of the line
    nolin = X.all(a, s.end, lambda k: Not(istrm(k)))
    t = r.end                                      # its terminator
    two = And(lt(add(t, 1), s.end), pairs(X.H(t), X.H(add(t, 1))))
    rest = Ite(two, add(t, 2), add(t, 1))
    yield 'S07', 'an invalid result only without a line ending, and then nothing changes', \
        Implies(Not(r.valid), And(r.invalid, n.same(s), True if eol.null else eq(e1, e0), Or(eq(s.size, 0), nolin)))
    yield 'S07', 'the line is the text before the first line ending', \
        Implies(r.valid, And(gt(s.size, 0), eq(r.data, a), ge(r.size, 0), lt(t, s.end), istrm(t), X.all(a, t, lambda k: Not(istrm(k)))))
    yield 'S07', 'the source continues after the line ending', \
        Implies(r.valid, And(n.valid, eq(n.size, sub(s.end, rest)), Implies(gt(n.size, 0), eq(n.data, rest))))
    if not eol.null:
        yield 'S07', 'the state tells whether the other half may follow', Implies(r.valid, eq(e1, Ite(two, 0, X.H(t))))
Contract('strview_split_line', [('strview_ptr', 'view*'), ('eol', 'char*?')], 'view', p_split_line, props='S01 S07',
         pre=lambda X: [] if X.a.eol.null else [Or(eq(X.a.eol.v, 0), eq(X.a.eol.v, CR), eq(X.a.eol.v, LF))],
         hints=lambda X: [Pos(lambda k: Or(eq(X.H(k), CR), eq(X.H(k), LF)), IN_pat(X))])

# ---------------------------------------------------------------- S09
def p_dequote(X):
    s, r = X.a.src, X.r
    yield 'S01', 'the result is part of the source', inside(r, s)
    j = sub(r.data, s.data)
    q = X.H(s.data)
    mirror = lambda k: sub(sub(add(s.data, s.end), 1), k)
    yield 'S09', 'as many characters are removed at the end as at the start', And(ge(j, 0), eq(r.size, sub(s.size, mul(2, j))), ge(r.size, 0))
    yield 'S09', 'only pairs of the first quote character are removed', Implies(gt(j, 0), And(Or(eq(q, 34), eq(q, 39)),
        X.all(s.data, r.data, lambda k: And(eq(X.H(k), q), eq(X.H(mirror(k)), q)))))
    yield 'S09', 'no further pair is left', Not(And(gt(r.size, 1), Or(eq(q, 34), eq(q, 39)), eq(X.H(r.data), q), eq(X.H(sub(r.end, 1)), q)))
def h_dequote(X):
    s = X.a.src
    q = X.H(s.data)
    mirror = lambda k: sub(sub(add(s.data, s.end), 1), k)
    return [Pos(lambda k: And(eq(X.H(k), q), eq(X.H(mirror(k)), q)), IN_pat(X))]
Contract('strview_dequote', [('src', 'view')], 'view', p_dequote, props='S01 S09', hints=h_dequote)
