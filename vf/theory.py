"""Spec functions (uninterpreted, with pattern-triggered defining axioms) over a byte memory H: address -> signed char."""
import z3
from .sym import *

QUOTE = 34

def u8(c):
    c = I(c)
    if isinstance(c, int): return c + 256 if c < 0 else c
    return z3.If(c < 0, c + 256, c)

def s8(c):
    c = I(c)
    if isinstance(c, int): return ((c + 128) % 256) - 128
    return z3.If(c > 127, c - 256, c)

def toup(c):
    """ASCII toupper on an int"""
    c = I(c)
    if isinstance(c, int): return c - 32 if 97 <= c <= 122 else c
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)

def isdig(c): return And(ge(c, 48), le(c, 57))

def digval(c):
    """value of a digit character in base 2, 10, 16"""
    c = I(c)
    if isinstance(c, int):
        return c - 48 if c <= 57 else (c | 32) - 87
    return z3.If(c <= 57, c - 48, z3.If(c <= 90, c - 55, c - 87))

def inset(c, lo, hi): return And(ge(c, lo), le(c, hi))
CLASS = {
    'sp': lambda c: eq(c, 32), 'zero': lambda c: eq(c, 48), 'd2': lambda c: inset(c, 48, 49), 'd10': lambda c: inset(c, 48, 57),
    'd16': lambda c: Or(inset(c, 48, 57), inset(c, 65, 70), inset(c, 97, 102)),
}

class Base:
    """One memory state."""
    def __init__(self, th, name):
        self.th = th
        self.name = name
        self.H = z3.Function(name, z3.IntSort(), z3.IntSort())
        a = z3.Int('a')
        th.axiom(z3.ForAll([a], z3.And(self.H(a) >= -128, self.H(a) <= 127), patterns=[self.H(a)]))
        self.uf = {}
        self.folds = []

    def rd(self, a):
        return self.H(Z(I(a)))

    def _in(self):
        if 'IN' not in self.uf:
            s = z3.IntSort()
            IN = z3.Function('IN_' + self.name, s, s, s, z3.BoolSort())
            W = z3.Function('INw_' + self.name, s, s, s, s)
            d, n, c, k = z3.Ints('d n c k')
            H = self.H
            self.th.axiom(z3.ForAll([d, n, c], z3.Implies(IN(d, n, c), z3.And(d <= W(d, n, c), W(d, n, c) < d + n, H(W(d, n, c)) == c)), patterns=[IN(d, n, c)]))
            self.th.axiom(z3.ForAll([d, n, c, k], z3.Implies(z3.And(d <= k, k < d + n, H(k) == c), IN(d, n, c)), patterns=[z3.MultiPattern(IN(d, n, c), H(k))]))
            self.uf['IN'] = IN
        return self.uf['IN']

    def IN(self, d, n, c):
        d, n, c = I(d), I(n), I(c)
        lit = self.th.lit_at(d)
        if lit is not None and isinstance(n, int) and n <= len(lit):
            return Or(*[eq(c, s8(b)) for b in lit[:n]])
        return self._in()(Z(d), Z(n), Z(c))

    def DIFF(self, p, q, n, nocase=False):
        """index of the first difference of H[p..p+n) and H[q..q+n), n if none"""
        key = 'DIFFN' if nocase else 'DIFF'
        if key not in self.uf:
            s = z3.IntSort()
            D = z3.Function(key + '_' + self.name, s, s, s, s)
            P, Q, N, A = z3.Ints('p q n a')
            f = (lambda x: toup(u8(x))) if nocase else (lambda x: x)
            d = D(P, Q, N)
            H = self.H
            self.th.axiom(z3.ForAll([P, Q, N], z3.And(
                z3.Implies(N >= 0, z3.And(0 <= d, d <= N)),
                z3.Implies(z3.And(N >= 0, d < N), f(H(P + d)) != f(H(Q + d))),
                z3.Implies(z3.And(N >= 0, d > 0), f(H(P)) == f(H(Q))),
                z3.Implies(z3.And(N >= 0, P == Q), d == N)), patterns=[d]))
            self.th.axiom(z3.ForAll([P, Q, N, A], z3.Implies(z3.And(P <= A, A < P + d),
                f(H(A)) == f(H(Q + A - P))), patterns=[z3.MultiPattern(d, self.th.MARK(A))]))
            self.uf[key] = D
        return self.uf[key](Z(I(p)), Z(I(q)), Z(I(n)))

    def RUN(self, kind, p, e):
        """first address in [p, e] that does not hold a character of the class; e if there is none"""
        key = 'RUN' + kind
        if key not in self.uf:
            i = z3.IntSort()
            R = z3.Function(key + '_' + self.name, i, i, i)
            P, E, K = z3.Ints('p e k')
            H = self.H; cls = CLASS[kind]
            r = R(P, E)
            self.th.axiom(z3.ForAll([P, E], z3.And(z3.Implies(P <= E, z3.And(P <= r, r <= E)), z3.Implies(P >= E, r == P), z3.Implies(r < E, z3.Not(Z(cls(H(r)))))), patterns=[r]))
            self.th.axiom(z3.ForAll([P, E, K], z3.Implies(z3.And(P <= K, K < r), Z(cls(H(K)))), patterns=[z3.MultiPattern(r, H(K))]))
            self.uf[key] = R
        return self.uf[key](Z(I(p)), Z(I(e)))

    def VAL(self, base, p, e):
        """value of the characters [p, e) read as digits of the base"""
        key = 'VAL%d' % base
        if key not in self.uf:
            i = z3.IntSort()
            F = z3.Function(key + '_' + self.name, i, i, i)
            self.uf[key] = F
            P, A = z3.Ints('p a')
            if self.th.opaque:
                self.th.axiom(z3.ForAll([P, A], z3.Implies(P == A, F(P, A) == 0), patterns=[F(P, A)]))
                return F(Z(I(p)), Z(I(e)))
            self.th.axiom(z3.ForAll([P], F(P, P) == 0, patterns=[F(P, P)]))
            self.th.axiom(z3.ForAll([P, A], z3.Implies(A >= P, F(P, A + 1) == base * F(P, A) + digval(self.H(A))), patterns=[z3.MultiPattern(F(P, A), self.H(A))]))
            self.uf[key] = F
        return self.uf[key](Z(I(p)), Z(I(e)))

    def VAL_lemmas(self, base, prove):
        """consequences of the definition of VAL, each proved by induction over the digits (prove(name, formula)) and then used"""
        key = 'VALlem%d' % base
        if key in self.uf or self.th.opaque: return
        self.uf[key] = True
        F = lambda a, b: self.VAL(base, a, b)
        D = lambda a, b: self.RUN('d%d' % base, a, b)
        p, e, i, j = z3.Ints('lp le li lj')
        r = D(p, e); H = self.H
        ok = True
        # digits have values that are not negative
        ok &= prove('the value of digits is not negative (base)', F(p, p) >= 0)
        hi = H(i) >= -128
        ok &= prove('the value of digits is not negative (step)', z3.Implies(z3.And(p <= i, i < r, F(p, i) >= 0, hi), F(p, i + 1) >= 0))
        ok &= prove('the value of digits never falls (base)', F(p, r) <= F(p, r))
        ok &= prove('the value of digits never falls (step down)', z3.Implies(z3.And(p <= i, i < r, F(p, i) >= 0, F(p, i + 1) <= F(p, r), hi), F(p, i) <= F(p, r)))
        if ok:
            P, E, A = z3.Ints('p e a')
            self.th.axiom(z3.ForAll([P, E, A], z3.Implies(z3.And(P <= A, A <= D(P, E)), z3.And(F(P, A) >= 0, F(P, A) <= F(P, D(P, E)))), patterns=[z3.MultiPattern(F(P, A), D(P, E))]))
        ok = prove('zeros have no value (base)', F(p, p) == 0)
        ok &= prove('zeros have no value (step)', z3.Implies(z3.And(p <= i, H(i) == 48, F(p, i) == 0), F(p, i + 1) == 0))
        if ok:
            P, A = z3.Ints('p a')
            W = z3.Function('VALw%d_%s' % (base, self.name), z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.th.axiom(z3.ForAll([P, A], z3.Implies(P <= A, z3.Or(F(P, A) == 0, z3.And(P <= W(P, A), W(P, A) < A, H(W(P, A)) != 48))), patterns=[F(P, A)]))

    def FRAC(self, p, e):
        """value of the digits [p, e) after a decimal point: the sum of digit * 10^-(position + 1)"""
        if 'FRAC' not in self.uf:
            i = z3.IntSort()
            F = z3.Function('FRAC_' + self.name, i, i, z3.RealSort())
            self.uf['FRAC'] = F
            P, A = z3.Ints('p a')
            if self.th.opaque:
                self.th.axiom(z3.ForAll([P, A], z3.Implies(P == A, F(P, A) == 0), patterns=[F(P, A)]))
                return F(Z(I(p)), Z(I(e)))
            MP = self.th.mp
            self.th.axiom(z3.ForAll([P], F(P, P) == 0, patterns=[F(P, P)]))
            self.th.axiom(z3.ForAll([P, A], z3.Implies(A >= P, F(P, A + 1) == F(P, A) + MP(z3.ToReal(digval(self.H(A))), P - A - 1)), patterns=[z3.MultiPattern(F(P, A), self.H(A))]))
            self.uf['FRAC'] = F
        return self.uf['FRAC'](Z(I(p)), Z(I(e)))

    def FRAC_lemmas(self, prove):
        """reading digits in pieces: consequences of the definitions of VAL, FRAC and 10^n, proved by induction over the digits"""
        if 'FRAClem' in self.uf or self.th.opaque: return
        self.uf['FRAClem'] = True
        V = lambda a, b: z3.ToReal(self.VAL(10, a, b))
        F, MP, H = self.FRAC, self.th.mp, self.H
        s, b, c = z3.Ints('ls lb lc'); n = z3.Int('ln')
        d = z3.ToReal(digval(H(c)))
        x, y, q = z3.Reals('lx ly lq')
        imp, conj = z3.Implies, z3.And
        # 10^n: MP(x, n) is the product x * 10^n, so these instances hold by arithmetic
        ok = prove('scaling by a power of ten is linear', (10 * x + y) * q == 10 * (x * q) + y * q)
        ok &= prove('digits in two pieces (base)', imp(s <= b, V(s, b) == MP(V(s, b), 0) + V(b, b)))
        ok &= prove('digits in two pieces (step)', imp(conj(s <= b, b <= c, H(c) >= -128, V(s, c) == MP(V(s, b), c - b) + V(b, c), MP(V(s, b), c + 1 - b) == 10 * MP(V(s, b), c - b)),
                                                     V(s, c + 1) == MP(V(s, b), c + 1 - b) + V(b, c + 1)))
        if ok:
            S, B_, C = z3.Ints('s b c')
            self.th.axiom(z3.ForAll([S, B_, C], imp(conj(S <= B_, B_ <= C), V(S, C) == MP(V(S, B_), C - B_) + V(B_, C)), patterns=[z3.MultiPattern(self.VAL(10, S, B_), self.VAL(10, B_, C))]))
        k = s - c - 1
        ok = prove('a fraction in two pieces (base)', imp(s <= b, F(s, b) == F(s, b) + MP(V(b, b), s - b)))
        ok &= prove('a fraction in two pieces (step)', imp(conj(s <= b, b <= c, H(c) >= -128, F(s, c) == F(s, b) + MP(V(b, c), s - c),
                        MP(10 * V(b, c) + d, k) == 10 * MP(V(b, c), k) + MP(d, k), MP(V(b, c), s - c) == 10 * MP(V(b, c), k)),
                    F(s, c + 1) == F(s, b) + MP(V(b, c + 1), s - c - 1)))
        if ok:
            S, B_, C = z3.Ints('s b c')
            self.th.axiom(z3.ForAll([S, B_, C], imp(conj(S <= B_, B_ <= C), F(S, C) == F(S, B_) + MP(V(B_, C), S - C)), patterns=[z3.MultiPattern(F(S, B_), self.VAL(10, B_, C))]))
        ok = prove('zeros at the end of a fraction have no value (base)', F(s, b) == F(s, b))
        ok &= prove('zeros at the end of a fraction have no value (step)', imp(conj(s <= b, b <= c, H(c) == 48, F(s, c) == F(s, b)), F(s, c + 1) == F(s, b)))
        if ok:
            S, B_, C = z3.Ints('s b c')
            W = z3.Function('FRACw_' + self.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
            self.th.axiom(z3.ForAll([S, B_, C], imp(conj(S <= B_, B_ <= C), z3.Or(F(S, C) == F(S, B_), conj(B_ <= W(B_, C), W(B_, C) < C, H(W(B_, C)) != 48))), patterns=[z3.MultiPattern(F(S, B_), F(S, C))]))

    def fold(self, kind, s):
        """forward fold from address s: function of the end address"""
        s = Z(I(s))
        key = (kind, s.get_id())
        if key in self.uf: return self.uf[key][0]
        i = z3.IntSort()
        nm = '%s_%s_%d' % (kind, self.name, len(self.uf))
        a = z3.Int('a')
        H = self.H
        if kind == 'PAR':
            F = z3.Function(nm, i, z3.BoolSort())
            self.th.axiom(F(s) == z3.BoolVal(False))
            self.th.axiom(z3.ForAll([a], z3.Implies(a >= s, F(a + 1) == z3.Xor(F(a), H(a) == QUOTE)), patterns=[H(a)]))
        elif kind == 'PARB':      # parity of quotes in [p, s)
            F = z3.Function(nm, i, z3.BoolSort())
            self.th.axiom(F(s) == z3.BoolVal(False))
            self.th.axiom(z3.ForAll([a], z3.Implies(a < s, F(a) == z3.Xor(F(a + 1), H(a) == QUOTE)), patterns=[H(a)]))
        else: raise KeyError(kind)
        self.uf[key] = (F, s)
        return F

class Theory:
    def __init__(self):
        self.axioms = []
        self.bases = 0
        self.MARK = z3.Function('MARK', z3.IntSort(), z3.BoolSort())
        self.lits = {}          # bytes -> address const
        self.litaddr = {}       # id of const -> bytes
        self.version = 0
        self._mp = None
        self.opaque = False     # the values of digit strings are left undefined: enough where they are only passed on

    @property
    def mp(self):
        """mp(x, n) = x * 10^n"""
        if self._mp is None:
            r, i = z3.RealSort(), z3.IntSort()
            f = self._mp = z3.Function('MP', r, i, r)
            x, n = z3.Real('x'), z3.Int('n')
            self.axiom(z3.ForAll([x, n], z3.And(z3.Implies(n == 0, f(x, n) == x), z3.Implies(x == 0, f(x, n) == 0)), patterns=[f(x, n)]))
        return self._mp

    def axiom(self, a):
        self.axioms.append(a)
        self.version += 1

    def new_base(self, name=None):
        self.bases += 1
        return Base(self, name or 'H%d' % self.bases)

    def lit_at(self, d):
        if isinstance(d, int): return None
        return self.litaddr.get(d.get_id())

    def literal(self, bs, base):
        """address of a string literal (bytes without the terminator)"""
        if bs not in self.lits:
            a = z3.Int('LIT%d' % len(self.lits))
            self.lits[bs] = a
            self.litaddr[a.get_id()] = bs
            self.axiom(z3.And(a >= 4096, a + len(bs) + 1 <= 2**47))
            for i, b in enumerate(bs + b'\0'):
                self.axiom(base.H(a + i) == s8(b))
        return self.lits[bs]
