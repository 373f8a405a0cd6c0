"""Contracts of strnum.c (properties N01..N05)."""
import errno
from vf.contract import *
from vf.contract import Contract
from vf.loops import forall
from vf.engine import Obl
from vf.sym import *
from vf.theory import toup, u8
from vf.numrun import NumRunner, FloatRunner
from vf import floats

EINVAL, ERANGE = errno.EINVAL, errno.ERANGE
BIN, HEX, NOBX, NOSIGN, NOSPACE, NOEXP = range(6)          # bit numbers of the documented options

def bit(o, k): return eq(fmod(fdiv(o, 1 << k), 2), 1)
def old(p): return INVALID if p.null else p.v

class Int:
    """what the grammar says about a source view: where each part ends, the value"""
    def __init__(g, X, src, opt, signed):
        s = g.s = src
        e = s.end
        g.s0 = Ite(bit(opt, NOSPACE), s.data, X.RUN('sp', s.data, e))
        c0 = X.H(g.s0)
        has = And(lt(g.s0, e), Not(bit(opt, NOSIGN)), Or(eq(c0, 43), eq(c0, 45))) if signed else False
        g.neg = And(has, eq(c0, 45)) if signed else False
        g.s1 = Ite(has, add(g.s0, 1), g.s0)
        two = And(le(add(g.s1, 2), e), eq(X.H(g.s1), 48), Not(bit(opt, NOBX)))
        c2 = toup(u8(X.H(add(g.s1, 1))))
        X.mark(g.s1, add(g.s1, 1))
        pb = And(two, eq(c2, 66), Not(bit(opt, HEX)))
        px = And(two, eq(c2, 88), Not(bit(opt, BIN)))
        g.s2 = Ite(Or(pb, px), add(g.s1, 2), g.s1)
        base = g.base = Ite(pb, 2, Ite(px, 16, Ite(bit(opt, BIN), 2, Ite(bit(opt, HEX), 16, 10))))
        if X.concrete:
            g.e2 = X.RUN('d%d' % base, g.s2, e)
            g.val = X.VAL(base, g.s2, g.e2)
        elif isinstance(base, int):
            lemmas(X, (base,))
            g.e2 = X.RUN('d%d' % base, g.s2, e)
            g.val = X.VAL(base, g.s2, g.e2)
        else:
            r = {b: X.RUN('d%d' % b, g.s2, e) for b in (2, 10, 16)}
            lemmas(X)
            g.e2 = Ite(eq(base, 2), r[2], Ite(eq(base, 16), r[16], r[10]))
            g.val = Ite(eq(base, 2), X.VAL(2, g.s2, r[2]), Ite(eq(base, 16), X.VAL(16, g.s2, r[16]), X.VAL(10, g.s2, r[10])))
        g.num = And(s.valid, lt(g.s2, g.e2))              # there is a number
        g.v = Ite(g.neg, sub(0, g.val), g.val)
    def fits(g, lo, hi): return And(le(lo, g.v), le(g.v, hi))
    def rest(g): return V(g.e2, sub(g.s.end, g.e2))

def prover(X, props):
    ex = X.ex
    def prove(nm, f):
        ok = ex.pr.check([Not(f)], 10000) == 'unsat'
        if not X.applying: ex.obls.append(Obl('post:' + props, 'lemma: ' + nm, 'VAL', ok))
        return ok
    return prove
def lemmas(X, bases=(2, 10, 16)):
    if X.concrete: return
    for b in bases: X.base.VAL_lemmas(b, prover(X, 'N01'))
def flemmas(X):
    if not X.concrete: X.base.FRAC_lemmas(prover(X, 'N05'))

INTS = {'uchar': 8, 'ushort': 16, 'uint': 32, 'ulong': 64, 'ullong': 64, 'char': -8, 'short': -16, 'int': -32, 'long': -64, 'llong': -64}
def rng(bits): return (0, 2**bits - 1) if bits > 0 else (-2**(-bits - 1), 2**(-bits - 1) - 1)

def p_consume(signed, limits):
    def post(X):
        src = old(X.a.src)
        lo, hi = limits(X)
        g = Int(X, src, X.a.options, signed)
        r = X.r
        ok = eq(r, 0)
        fits = g.fits(lo, hi)
        yield 'N01 N02', 'an invalid value is reported exactly when there is no number', Iff(eq(r, EINVAL), Not(g.num))
        yield 'N01', 'a range error is reported exactly when the value does not fit', Iff(eq(r, ERANGE), And(g.num, Not(fits)))
        yield 'N01 N02 N03', 'a number that fits is accepted, and nothing else', Iff(ok, And(g.num, fits))
        yield 'N03', 'never succeeds on an invalid source', Implies(Not(src.valid), eq(r, EINVAL))
        if not X.a.src.null:
            yield 'N02', 'exactly the number is removed from the source', Implies(ok, X.n.src.v.same(g.rest()))
            yield 'N03', 'the source is unchanged on failure', Implies(Not(ok), X.n.src.v.same(src))
        if not X.a.dst.null:
            yield 'N01', 'the destination holds the value', Implies(ok, eq(X.n.dst.v, g.v))
            yield 'N03', 'the destination is unchanged on failure', Implies(Not(ok), eq(X.n.dst.v, X.a.dst.v))
    return post

def h_num(X):
    src = getattr(X.a, 'src', None) or getattr(X.a, 'str', None)
    src = old(src) if isinstance(src, P) else src
    out = []
    if hasattr(X.a, 'options'):
        g = Int(X, src, X.a.options, True)
        starts = [g.s2]
    else: starts = [src.data]
    for b in X.bases:
        lemmas(X, (b,))
        for st in starts: out.append(Fold(lambda e, b=b, st=st: X.VAL(b, st, e), 'int', 'VAL%d' % b))
    from vf.theory import CLASS
    for k in ['sp', 'zero'] + ['d%d' % b for b in X.bases]: out.append(Pos(lambda p, k=k: CLASS[k](X.H(p)), lambda p: X.base.H(p)))
    return out
def hints(*bases):
    def h(X):
        X.bases = bases
        return h_num(X)
    return h

# ---------------------------------------------------------------- private helpers
def p_digits(base):
    def post(X):
        s, n, r = X.a.str.v, X.n.str.v, X.r
        e2 = X.RUN('d%d' % base, s.data, s.end)
        lemmas(X, (base,))
        some = gt(e2, s.data)
        v = X.VAL(base, s.data, e2)
        fits = le(v, 2**64 - 1)
        yield 'N01', 'invalid exactly without a digit', Iff(eq(r, EINVAL), Not(some))
        yield 'N01', 'range error exactly when the value is too large', Iff(eq(r, ERANGE), And(some, Not(fits)))
        yield 'N01', 'no other result', Or(eq(r, 0), eq(r, EINVAL), eq(r, ERANGE))
        yield 'N02', 'without a digit nothing is consumed', Implies(Not(some), n.same(s))
        yield 'N02', 'all digits are consumed', Implies(eq(r, 0), And(eq(n.data, e2), eq(n.end, s.end)))
        yield 'N02 N05', 'some digits are consumed', Implies(some, And(lt(s.data, n.data), le(n.data, e2), eq(n.end, s.end)))
        if not X.a.dst.null:
            yield 'N01 N05', 'the value of the digits consumed', Ite(some, eq(X.n.dst.v, X.VAL(base, s.data, n.data)), eq(X.n.dst.v, 0))
    return post
for nm, b in (('consume_decimal_digits', 10), ('consume_hex_digits', 16), ('consume_bin_digits', 2)):
    Contract(nm, [('dst', 'ullong*?'), ('str', 'view*!')], 'int', p_digits(b), tu='strnum', private=True, hints=hints(b), keep_alias=False)

Contract('consume_signed', [('dst', 'llong*?'), ('src', 'view*'), ('options', 'int'), ('limit_min', 'llong'), ('limit_max', 'llong')], 'int',
         p_consume(True, lambda X: (X.a.limit_min, X.a.limit_max)), tu='strnum', private=True, hints=hints(2, 10, 16), budget=2, merge=True, opaque=True)
Contract('consume_unsigned', [('dst', 'ullong*?'), ('src', 'view*'), ('options', 'int'), ('limit_max', 'ullong')], 'int',
         p_consume(False, lambda X: (0, X.a.limit_max)), tu='strnum', private=True, hints=hints(2, 10, 16), budget=2, merge=True, opaque=True)

# ---------------------------------------------------------------- public integer functions
for t, bits in INTS.items():
    Contract('strnum_consume_' + t, [('dst', t + '*?'), ('src', 'view*'), ('options', 'int')], 'int', p_consume(bits < 0, lambda X, bits=bits: rng(bits)),
             tu='strnum', props='N01 N02 N03', hints=hints(2, 10, 16), runner=NumRunner)

def p_default(bits):
    def post(X):
        g = Int(X, X.a.src, X.a.options, bits < 0)
        ok = And(g.num, g.fits(*rng(bits)))
        yield 'N01 N02', 'the value of the number', Implies(ok, eq(X.r, g.v))
        yield 'N01 N02 N03', 'the default when the conversion fails', Implies(Not(ok), eq(X.r, X.a.dfault))
    return post
NAMED = {'i8': -8, 'i16': -16, 'i32': -32, 'i64': -64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
KIND = {'i8': 'schar', 'i16': 'short', 'i32': 'int', 'i64': 'long', 'u8': 'uchar', 'u16': 'ushort', 'u32': 'uint', 'u64': 'ulong'}
for t, bits in list(INTS.items()) + list(NAMED.items()):
    k = KIND.get(t, t)
    Contract('strnum_' + t, [('src', 'view'), ('dfault', k), ('options', 'int')], k, p_default(bits), tu='strnum', props='N01 N02 N03', hints=hints(2, 10, 16), runner=NumRunner)

# ---------------------------------------------------------------- floating point
class Flt:
    """the grammar of a floating point number"""
    def __init__(g, X, src, opt, value=True):
        s = g.s = src; e = s.end
        g.s0 = Ite(bit(opt, NOSPACE), s.data, X.RUN('sp', s.data, e))
        c0 = X.H(g.s0)
        has = And(lt(g.s0, e), Not(bit(opt, NOSIGN)), Or(eq(c0, 43), eq(c0, 45)))
        g.neg = And(has, eq(c0, 45))
        p = g.s1 = Ite(has, add(g.s0, 1), g.s0)
        X.mark(p, *[add(p, k) for k in range(1, 8)])
        def word(w):
            return And(le(add(p, len(w)), e), *[Or(eq(X.H(add(p, k)), ord(c)), eq(X.H(add(p, k)), ord(c) + 32)) for k, c in enumerate(w)])
        g.inf8, g.inf, g.nan = And(s.valid, word('INFINITY')), And(s.valid, word('INF')), And(s.valid, word('NAN'))
        g.special = Or(g.inf, g.nan)
        g.i2 = X.RUN('d10', p, e)
        point = And(lt(g.i2, e), eq(X.H(g.i2), 46))
        g.f1 = Ite(point, add(g.i2, 1), g.i2)
        g.f2 = Ite(point, X.RUN('d10', add(g.i2, 1), e), g.i2)
        g.dec = And(s.valid, Not(g.special), Or(lt(p, g.i2), lt(g.f1, g.f2)))
        g.m = Ite(g.special, Ite(g.inf8, add(p, 8), add(p, 3)), g.f2)
        cm = X.H(g.m)
        hase = And(g.dec, Not(bit(opt, NOEXP)), lt(g.m, e), Or(eq(cm, 101), eq(cm, 69)))
        x = Int(X, V(add(g.m, 1), sub(e, add(g.m, 1))), (1 << NOSPACE) | (1 << NOBX), True)
        fits = x.fits(INT_MIN, INT_MAX)
        g.hasexp = And(hase, x.num, fits)
        g.erange = And(hase, x.num, Not(fits))
        g.end = Ite(g.hasexp, x.e2, g.m)
        g.exp = Ite(g.hasexp, x.v, 0)
        g.X = X
    def rest(g): return V(g.end, sub(g.s.end, g.end))
    def value(g):
        """the decimal value, exactly, sign left out"""
        X = g.X
        flemmas(X)
        return X.scale(X.ival(g.s1, g.i2) + X.FRAC(g.f1, g.f2), g.exp)

def flt_result(X, g, ok, v):
    yield 'N04', 'inf and infinity give infinity with the sign applied', Implies(And(ok, Not(g.nan), g.special), eq(X.fkind(v), Ite(g.neg, 2, 1)))
    yield 'N04', 'nan gives not-a-number', Implies(And(ok, g.nan), eq(X.fkind(v), 3))
    yield 'N04 N05', 'a decimal number gives a finite value', Implies(And(ok, g.dec), eq(X.fkind(v), 0))
    if not X.ideal or X.concrete: yield 'N05', 'the sign is applied', Implies(And(ok, g.dec), Ite(g.neg, X.fge0(X.fneg(v)), X.fge0(v)))
    if X.ideal:
        yield 'N05', 'the decimal value', X.when(And(ok, g.dec), lambda: X.inrange(g), lambda: X.fis(Ite(g.neg, X.fneg(v), v) if X.concrete else X.ex.float_ite(g.neg, X.fneg(v), v), g.value()))

def p_cfloat(X):
    src = old(X.a.src)
    g = Flt(X, src, X.a.options); r = X.r
    ok = eq(r, 0)
    yield 'N04', 'an invalid value is reported exactly when there is no number', Iff(eq(r, EINVAL), Not(Or(g.special, g.dec)))
    yield 'N04', 'no other result', Or(ok, eq(r, EINVAL), eq(r, ERANGE))
    yield 'N04', 'inf and nan are never out of range', Implies(g.special, ok)
    yield 'N04', 'an exponent that does not fit is a range error', Implies(g.erange, eq(r, ERANGE))
    if X.ideal:
        yield 'N04 N05', 'any other number is accepted', X.when(And(g.dec, Not(g.erange)), lambda: X.inrange(g), lambda: ok)
    yield 'N03', 'never succeeds on an invalid source', Implies(Not(src.valid), eq(r, EINVAL))
    if not X.a.src.null:
        yield 'N04', 'exactly the number is removed from the source', Implies(ok, X.n.src.v.same(g.rest()))
        yield 'N03', 'the source is unchanged on failure', Implies(Not(ok), X.n.src.v.same(src))
    if not X.a.dst.null:
        yield 'N03', 'the destination is unchanged on failure', Implies(Not(ok), X.fsame(X.n.dst.v, X.a.dst.v))
        yield from flt_result(X, g, ok, X.n.dst.v)

def p_dfloat(X):
    g = Flt(X, X.a.src, X.a.options)
    yield 'N03 N04', 'the default when there is no number', Implies(Or(Not(Or(g.special, g.dec)), g.erange), X.fsame(X.r, X.a.dfault))
    yield 'N04', 'inf and infinity give infinity with the sign applied', Implies(And(Not(g.nan), g.special), eq(X.fkind(X.r), Ite(g.neg, 2, 1)))
    yield 'N04', 'nan gives not-a-number', Implies(g.nan, eq(X.fkind(X.r), 3))
    number = And(g.dec, Not(g.erange))
    dflt = X.fsame(X.r, X.a.dfault)
    yield 'N03 N04', 'a finite value or the default', Implies(number, Or(eq(X.fkind(X.r), 0), dflt))
    if X.ideal:
        neg = (lambda v: X.fneg(v) if g.neg else v) if X.concrete else (lambda v: X.ex.float_ite(g.neg, X.fneg(v), v))
        yield 'N03 N05', 'the decimal value', X.when(number, lambda: X.inrange(g), lambda: X.fis(neg(X.r), g.value()))

MODES = ('ideal', 'any')
def h_float(X):
    src = X.a.src if isinstance(X.a.src, V) else old(X.a.src)
    from vf.theory import CLASS
    return [Pos(lambda p, k=k: CLASS[k](X.H(p)), lambda p: X.base.H(p)) for k in ('sp', 'd10')]

def p_make(X):
    i, f = X.a.integral_digits, X.a.fractional_digits
    yield 'N04 N05', 'not a number is never made', Or(eq(X.fkind(X.r), 0), eq(X.fkind(X.r), 1))
    if not X.ideal or X.concrete: yield 'N05', 'no sign', X.fge0(X.r)
    if X.ideal:
        flemmas(X)
        yield 'N05', 'the value of the parts', X.fis(X.r, X.scale(X.ival(i.data, i.end) + X.FRAC(f.data, f.end), X.a.exp_value))
def digits_only(X):
    for v in (X.a.integral_digits, X.a.fractional_digits): yield eq(X.RUN('d10', v.data, v.end), v.end)
def h_make(X):
    out = []
    for v in (X.a.integral_digits, X.a.fractional_digits):
        lemmas(X, (10,)); flemmas(X)
        out.append(Fold(lambda e, a=v.data: X.ival(a, e), 'real', 'ival'))
        out.append(Fold(lambda e, a=v.data: X.FRAC(a, e), 'real', 'frac'))
    return out

for t in ('float', 'double', 'ldouble'):
    Contract('make_' + t, [('integral_digits', 'view'), ('fractional_digits', 'view'), ('exp_value', 'int')], t, p_make, tu='strnum', private=True, pre=digits_only, hints=h_make, arith=MODES)
    Contract('strnum_consume_' + t, [('dst', t + '*?'), ('src', 'view*'), ('options', 'int')], 'int', p_cfloat, tu='strnum', props='N03 N04 N05', hints=h_float, runner=FloatRunner, arith=MODES, budget=2, merge=True, opaque=True, relevancy=0)
    Contract('strnum_' + t, [('src', 'view'), ('dfault', t), ('options', 'int')], t, p_dfloat, tu='strnum', props='N03 N04 N05', hints=h_float, runner=FloatRunner, arith=MODES, opaque=True)

def p_split(X):
    s, n, r = X.a.src.v, X.n.src.v, X.r
    e2 = X.RUN('d10', s.data, s.end)
    some = lt(s.data, e2)
    yield 'N04', 'the digits', Ite(some, r.same(V(s.data, sub(e2, s.data))), r.invalid)
    yield 'N04', 'the rest', Ite(some, n.same(V(e2, sub(s.end, e2))), n.same(s))
Contract('split_digits', [('src', 'view*!')], 'view', p_split, tu='strnum', private=True, hints=hints(10), keep_alias=False)
