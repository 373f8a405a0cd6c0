"""Floating point.  A value is {'#f': kind, 'v': real, 'p10': n or None, 'i': integer or None}; kind 0 finite, 1 +inf, 2 -inf, 3 NaN; the sign of
zero is not represented.  Two semantics (ex.fmode):
  'ideal'  finite operations are exact over the reals and pow(10, n) is 10^n: decides what is computed, up to rounding, overflow and underflow;
  'any'    an operation on finite values gives any finite value or infinity that IEEE-754 rounding allows (monotone, sign preserving, products
           may underflow to zero): decides what holds whatever is rounded, overflows or underflows."""
import z3
from fractions import Fraction
from .sym import *
from .sym import _lift
from .engine import Ex, Fn
from . import libc
FIN, PINF, NINF, NAN = 0, 1, 2, 3

def R(x):
    """a real term"""
    if isinstance(x, bool): return R(int(x))
    if isinstance(x, Fraction): return z3.RealVal('%d/%d' % (x.numerator, x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    if isinstance(x, int): return z3.RealVal(x)
    return z3.ToReal(x) if z3.is_int(x) else x
def isc(v): return isinstance(v, Fraction)
def fl(kind, v=Fraction(0), p10=None, i=None): return {'#f': kind, 'v': v, 'p10': p10, 'i': i}
def k_is(a, k): return eq(a['#f'], k)
def rcmp(op, a, b):
    if isc(a) and isc(b): return {'==': a == b, '<': a < b, '<=': a <= b}[op]
    x, y = R(a), R(b)
    return x == y if op == '==' else x < y if op == '<' else x <= y
def req(a, b): return rcmp('==', a, b)
def fresh_real(n): return z3.Real(fresh_name(n))

def fsame(a, b):
    """the same value (NaN equals NaN)"""
    return And(eq(a['#f'], b['#f']), Implies(k_is(a, FIN), req(a['v'], b['v'])))

def MP(ex, x, n):
    """x * 10^n"""
    if isinstance(n, int) and abs(n) < 60: return simpR(R(x) * R(Fraction(10) ** n))
    return ex.th.mp(R(x), Z(I(n)))
def simpR(e):
    e = z3.simplify(e)
    return Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else e

class FloatMixin:
    fmode = None
    def need(self, n=None):
        if self.fmode is None: self.unsupported('floating point', n)
    def float_lit(self, n):
        self.need(n)
        v = Fraction(repr(float(n.j['value'])))
        return self.fconst(v)
    def fconst(self, v):
        p, q = None, v
        if v > 0:
            p = 0
            while q >= 10 and p < 400: q /= 10; p += 1
            while q < 1 and p > -400: q *= 10; p -= 1
            if q != 1: p = None
        return fl(FIN, v, p, int(v) if v.denominator == 1 else None)
    def float_const(self, ty, v): self.need(); return self.fconst(Fraction(v))
    def fresh_float(self, st, ty, name):
        self.need()
        k = fresh_int(name + '.k'); st.assume(z3.And(k >= 0, k <= 3))
        return fl(k, fresh_real(name + '.v'))
    def float_nz(self, a): return Not(And(k_is(a, FIN), req(a['v'], Fraction(0))))
    def float_neg(self, a):
        k = a['#f']
        nk = {0: 0, 1: 2, 2: 1, 3: 3}[k] if isinstance(k, int) else z3.If(k == 1, 2, z3.If(k == 2, 1, k))
        return fl(nk, -a['v'] if isc(a['v']) else -R(a['v']), None, None if a['i'] is None else sub(0, a['i']))
    def float_ite(self, c, a, b):
        c = B(c)
        if isinstance(c, bool): return a if c else b
        pick = lambda x, y: x if x is y or (x is not None and y is not None and not z3.is_expr(x) and not z3.is_expr(y) and x == y) else None
        v = a['v'] if isc(a['v']) and isc(b['v']) and a['v'] == b['v'] else z3.If(c, R(a['v']), R(b['v']))
        return fl(Ite(c, a['#f'], b['#f']), v, pick(a['p10'], b['p10']), pick(a['i'], b['i']))
    def float_cast(self, s, ck, v, tf, tt, n):
        self.need(n)
        if ck == 'IntegralToFloating':
            v = I(v)
            if isinstance(v, int): return self.fconst(Fraction(v)) if abs(v) <= 2**24 or self.fmode == 'ideal' else self.fround(s, fl(FIN, Fraction(v)), False)
            if self.fmode == 'ideal' or (tf.k == 'int' and tf.bits <= {32: 24, 64: 53, 80: 64}[tt.bits]) or self.prove(s, And(le(-2**24, v), le(v, 2**24)), 500): return fl(FIN, R(v), None, v)
            f = self.fround(s, fl(FIN, R(v)), False); f['i'] = v
            return f
        if ck == 'FloatingCast':
            if self.fmode == 'ideal' or tt.bits >= tf.bits: return v
            if isc(v['v']) and v['#f'] == FIN and v['v'].denominator == 1 and abs(v['v']) <= 2**24: return v
            f = self.fround(s, v, True); f['i'], f['p10'] = v['i'], v['p10']
            return f
        if ck == 'FloatingToBoolean': return self.float_nz(v)
        self.unsupported('cast ' + ck, n)
    def fround(self, s, a, narrow):
        """rounding of a value to a narrower type; an integer never overflows or underflows"""
        if isinstance(a['#f'], int) and a['#f'] != FIN: return a
        k, r = (fresh_int('rk') if narrow else FIN), fresh_real('rv')
        x = R(a['v'])
        fin = k_is(a, FIN)
        ok = z3.And(z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0), z3.Implies(x >= 1, r >= 1), z3.Implies(x <= -1, r <= -1), z3.Implies(x >= 0, r <= 2 * x), z3.Implies(x <= 0, r >= 2 * x)) if not narrow else \
             z3.And(z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0), z3.Implies(x >= 1, r >= 1), z3.Implies(x <= -1, r <= -1))
        if narrow:
            s.assume(z3.And(k >= 0, k <= 3))
            s.assume(Ite(fin, And(Or(And(k == FIN, ok), And(k == PINF, x >= 1), And(k == NINF, x <= -1))), eq(k, a['#f'])))
        else: s.assume(ok)
        return fl(k, r)
    def float_bin(self, s, op, a, b, tr, n):
        self.need(n)
        for x in (a, b):
            if not (isinstance(x, dict) and '#f' in x): self.unsupported('mixed floating point operands', n)
        an, bn = k_is(a, NAN), k_is(b, NAN)
        af, bf = k_is(a, FIN), k_is(b, FIN)
        if op in ('==', '!='):
            e = And(Not(an), Not(bn), eq(a['#f'], b['#f']), Implies(af, req(a['v'], b['v'])))
            return e if op == '==' else Not(e)
        if op in ('<', '<=', '>', '>='):
            if op[0] == '>': a, b, af, bf, an, bn = b, a, bf, af, bn, an
            lt_ = Or(And(k_is(a, NINF), Not(k_is(b, NINF))), And(k_is(b, PINF), Not(k_is(a, PINF))), And(af, bf, rcmp('<', a['v'], b['v'])))
            if len(op) == 2: lt_ = Or(lt_, And(eq(a['#f'], b['#f']), Implies(af, req(a['v'], b['v']))))
            return And(Not(an), Not(bn), lt_)
        if op in ('+', '-'):
            if op == '-': b = self.float_neg(b); bn, bf = k_is(b, NAN), k_is(b, FIN)
            nan = Or(an, bn, And(k_is(a, PINF), k_is(b, NINF)), And(k_is(a, NINF), k_is(b, PINF)))
            inf = Ite(Not(af), a['#f'], b['#f'])
            return self.fresult(s, a, b, nan, inf, And(af, bf), lambda x, y: x + y, 'add')
        if op == '*':
            zer = lambda q: And(k_is(q, FIN), req(q['v'], Fraction(0)))
            nan = Or(an, bn, And(zer(a), Not(bf)), And(zer(b), Not(af)))
            pos = self.positive(a), self.positive(b)
            inf = Ite(Iff(pos[0], pos[1]), PINF, NINF)
            if self.fmode == 'ideal':
                q = None
                if isinstance(a['#f'], int) and isinstance(b['#f'], int) and a['#f'] == b['#f'] == FIN:
                    if isc(a['v']) and isc(b['v']): return self.fconst(a['v'] * b['v'])
                if b['p10'] is not None: q = lambda x, y: MP(self, x, b['p10'])
                elif a['p10'] is not None: q = lambda x, y: MP(self, y, a['p10'])
                p = add(a['p10'], b['p10']) if a['p10'] is not None and b['p10'] is not None else None
                return self.fresult(s, a, b, nan, inf, And(af, bf), q or (lambda x, y: x * y), 'mul', p)
            return self.fresult(s, a, b, nan, inf, And(af, bf), None, 'mul')
        if op == '/':
            if self.fmode == 'ideal':
                self.oblige(s, And(bf, Not(req(b['v'], Fraction(0)))), 'safe', 'no floating point division by zero', n)
                if b['p10'] is not None: q = lambda x, y: MP(self, x, sub(0, b['p10']))
                elif isc(b['v']) and b['v'] != 0: q = lambda x, y: x * R(1 / b['v'])
                else: q = lambda x, y: x / y
                p = sub(a['p10'], b['p10']) if a['p10'] is not None and b['p10'] is not None else None
                return self.fresult(s, a, b, an, a['#f'], af, q, 'div', p)
            f = self.fresh_float(s, tr, 'div')
            s.assume(Implies(And(self.nonneg(a), self.nonneg(b), self.float_nz(b), Not(And(Not(af), Not(bf)))), self.nonneg(f)))
            s.assume(Implies(And(af, bf, Not(req(b['v'], Fraction(0))), rcmp('<=', Fraction(1), b['v'])), k_is(f, FIN)))
            return f
        self.unsupported('floating point ' + op, n)
    def positive(self, a): return Or(k_is(a, PINF), And(k_is(a, FIN), rcmp('<', Fraction(0), a['v'])))
    def nonneg(self, a): return Or(k_is(a, PINF), And(k_is(a, FIN), rcmp('<=', Fraction(0), a['v'])))
    def fresult(self, s, a, b, nan, inf, fin, f, what, p10=None):
        fin = B(fin)
        if self.fmode == 'ideal':
            if fin is True and isc(a['v']) and isc(b['v']) and what == 'add': return self.fconst(a['v'] + b['v'])
            v = f(R(a['v']), R(b['v']))
            return fl(Ite(fin, FIN, Ite(nan, NAN, inf)), v, p10)
        k, r = fresh_int('fk'), fresh_real('fv')
        x, y = R(a['v']), R(b['v'])
        if what == 'add':
            ok = Or(And(k == FIN, z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= x, r >= y)), z3.Implies(z3.And(x <= 0, y <= 0), z3.And(r <= x, r <= y)), z3.Implies(x + y >= 0, r >= 0), z3.Implies(x + y <= 0, r <= 0), z3.Implies(r == 0, x + y == 0)),
                    And(k == PINF, x + y >= 1), And(k == NINF, x + y <= -1))
        else:
            ss = z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)); z = z3.Or(x == 0, y == 0)
            big = lambda q: z3.Or(q >= 1, q <= -1)
            ok = Or(And(k == FIN, z3.Implies(z, r == 0), z3.Implies(ss, r >= 0), z3.Implies(z3.And(z3.Not(ss), z3.Not(z)), r <= 0), z3.Implies(z3.And(x >= 1, y >= 1), z3.And(r >= x, r >= y)), z3.Implies(z3.And(x >= 0, y >= 0, y <= 1), r <= x), z3.Implies(z3.And(x >= 0, y >= 0, x <= 1), r <= y)),
                    And(k == PINF, ss, z3.Or(x > 1, x < -1, y > 1, y < -1)), And(k == NINF, z3.Not(ss), z3.Not(z), z3.Or(x > 1, x < -1, y > 1, y < -1)))
        s.assume(z3.And(k >= 0, k <= 3))
        s.assume(Ite(fin, ok, eq(k, Ite(nan, NAN, inf))))
        return fl(k, r)

for _n, _f in list(FloatMixin.__dict__.items()):
    if not _n.startswith('__'): setattr(Ex, _n, _f)

# ---------------------------------------------------------------- library models
def inf(ex, st, vs, node): ex.need(node); return [(st, fl(PINF))]
def nan(ex, st, vs, node): ex.need(node); return [(st, fl(NAN))]
for t in ('', 'f', 'l'):
    libc.MODELS['__builtin_inf' + t] = libc.MODELS['__builtin_huge_val' + t] = inf
    libc.MODELS['__builtin_nan' + t] = nan

def pow_(bits):
    def m(ex, st, vs, node):
        ex.need(node)
        x, y = vs
        n = y['i']
        if x['p10'] is None or not isinstance(x['p10'], int) or x['p10'] == 0 or n is None: ex.unsupported('pow of another base or exponent', node)
        n = mul(n, x['p10'])
        if isinstance(n, int) and abs(n) <= 10 and ex.fmode == 'ideal': return [(st, ex.fconst(Fraction(10) ** n))]
        if ex.fmode == 'ideal': return [(st, fl(FIN, MP(ex, Fraction(1), n), n))]
        k, r = fresh_int('pk'), fresh_real('pv')
        big = {32: 38, 64: 308, 80: 4932}[bits]
        st.assume(And(k >= 0, k <= 1, Implies(eq(k, PINF), gt(n, big)), r >= 0, Implies(ge(n, 0), r >= 1), Implies(le(n, 0), r <= 1)))
        return [(st, fl(k, r, n))]
    return m
for t, b in (('', 64), ('f', 32), ('l', 80)): libc.MODELS['pow' + t] = pow_(b)
def exp10_(bits):
    def m(ex, st, vs, node): ex.need(node); return pow_(bits)(ex, st, [ex.fconst(Fraction(10)), vs[0]], node)
    return m
for t, b in (('', 64), ('f', 32), ('l', 80)): libc.MODELS['exp10' + t] = exp10_(b)
def fabs_(ex, st, vs, node):
    a = vs[0]
    return [(st, fl(Ite(k_is(a, NINF), PINF, a['#f']), abs(a['v']) if isc(a['v']) else z3.If(R(a['v']) < 0, -R(a['v']), R(a['v']))))]
for t in ('', 'f', 'l'): libc.MODELS['fabs' + t] = libc.MODELS['__builtin_fabs' + t] = fabs_
def tst(f):
    def m(ex, st, vs, node): ex.need(node); return [(st, I(f(vs[0])))]
    return m
for nm, f in (('isnan', lambda a: k_is(a, NAN)), ('isinf', lambda a: Or(k_is(a, PINF), k_is(a, NINF))), ('isfinite', lambda a: k_is(a, FIN))):
    for q in (nm, '__builtin_' + nm, '__' + nm, '__' + nm + 'f', '__' + nm + 'l'): libc.MODELS[q] = tst(f)
libc.MODELS['__builtin_isinf_sign'] = tst(lambda a: Ite(k_is(a, PINF), 1, Ite(k_is(a, NINF), -1, 0)))
def copysign_(ex, st, vs, node): ex.unsupported('copysign', node)
