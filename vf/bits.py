"""Execution of the real functions on symbolic bits, for code whose control flow does not depend on the data (ciphers, byte order).

A bit is a polynomial over GF(2) in canonical form: an int whose bit 0 is the constant 1 and whose bit k is the atom k.  Atoms are
the free inputs, products of free inputs, outputs of the substitution table (of canonical arguments) and outputs of abstract block
functions.  Two bits denote the same function of the atoms exactly when the ints are equal, so an equation between terms is decided
by comparing them.  Values are python ints (known) or lists of bits, least significant first.  Pointers are (object, offset)."""
from .cast import TU, CT, INT, UINT, UCHAR, CHAR, ULONG, LONG, BOOL, VOID, ParseError

class Unsupported(Exception): pass
class Fault(Exception):
    """a memory access or operation the contract forbids"""

# ------------------------------------------------------------------ bits
class Atoms:
    def __init__(s):
        s.n = 1; s.info = {}; s.mono = {}; s.memo = {}
    def new(s, info):
        k = s.n; s.n += 1
        s.info[k] = info
        return 1 << k
    def keyed(s, key, count):
        """count fresh atoms determined by key"""
        if key not in s.memo: s.memo[key] = [s.new((key, i)) for i in range(count)]
        return s.memo[key]
AT = Atoms()
def reset():
    global AT
    AT = Atoms(); _S.clear()

def fresh(name, n): return [AT.new((name, i)) for i in range(n)]
def bits_of(f):
    out = []
    while f:
        b = f & -f; out.append(b); f ^= b
    return out
def AND(f, g):
    if f == 0 or g == 0: return 0
    if f == 1 or f == g: return g
    if g == 1: return f
    if f == g ^ 1: return 0
    F, G = bits_of(f), bits_of(g)
    if len(F) * len(G) > 4000: return AT.keyed(('and',) + tuple(sorted((f, g))), 1)[0]
    r = 0
    for a in F:
        for b in G: r ^= mono(a, b)
    return r
def mono(a, b):
    if a == 1 or a == b: return b
    if b == 1: return a
    fa, fb = AT.mono.get(a, frozenset((a,))), AT.mono.get(b, frozenset((b,)))
    k = fa | fb
    if k == fa: return a
    if k == fb: return b
    v = AT.keyed(('prod', k), 1)[0]
    AT.mono[v] = k
    return v
def NOT(f): return f ^ 1
def OR(f, g): return f ^ g ^ AND(f, g)
def ITE(c, a, b): return a if c == 1 else b if c == 0 else a if a == b else b ^ AND(c, a ^ b)

def isc(v): return isinstance(v, int)
def lst(v, n): return [(v >> i) & 1 for i in range(n)] if isc(v) else (v + [0] * (n - len(v)))[:n]
def norm(v):
    if isc(v): return v
    r = 0
    for i, f in enumerate(v):
        if f > 1: return v
        r |= f << i
    return r
def add(a, b, n, c=0):
    if isc(a) and isc(b): return (a + b + c) & ((1 << n) - 1)
    out = []
    for x, y in zip(lst(a, n), lst(b, n)):
        out.append(x ^ y ^ c); c = AND(x, y) ^ AND(c, x ^ y)
    return norm(out)
def inv(a, n): return a ^ ((1 << n) - 1) if isc(a) else [f ^ 1 for f in lst(a, n)]
def sub(a, b, n): return add(a, inv(b, n), n, 1)
def shl(a, k, n): return (a << k) & ((1 << n) - 1) if isc(a) else norm(([0] * k + lst(a, n))[:n])
def mul(a, b, n):
    if isc(a) and isc(b): return a * b & ((1 << n) - 1)
    if isc(a): a, b = b, a
    r = 0; A = lst(a, n)
    for i, f in enumerate(lst(b, n)):
        if f: r = add(r, norm([AND(f, x) for x in shl_l(A, i, n)]), n)
    return r
def shl_l(A, k, n): return ([0] * k + A)[:n]
def ult(a, b, n):
    """a < b, unsigned"""
    r = 0
    for x, y in zip(lst(a, n), lst(b, n)): r = ITE(x ^ y, y, r)
    return r
def eqv(a, b, n):
    r = 1
    for x, y in zip(lst(a, n), lst(b, n)):
        r = AND(r, x ^ y ^ 1)
        if not r: return 0
    return r
def nz(v, n):
    if isc(v): return int(v != 0)
    r = 0
    for f in lst(v, n): r = OR(r, f)
    return r

# ------------------------------------------------------------------ tables
def _gmul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= 0x11b
        b >>= 1
    return r
def _sbox():
    out = []
    for x in range(256):
        y = 0 if x == 0 else next(k for k in range(1, 256) if _gmul(x, k) == 1)
        out.append(y ^ (y << 1 | y >> 7) & 255 ^ (y << 2 | y >> 6) & 255 ^ (y << 3 | y >> 5) & 255 ^ (y << 4 | y >> 4) & 255 ^ 0x63)
    return tuple(out)
SBOX = _sbox()          # FIPS-197 5.1.1: the multiplicative inverse, then the affine map
INVS = tuple(SBOX.index(x) for x in range(256))
_S = {}
def sub_byte(v):
    """the substitution of FIPS-197, on a byte of bits"""
    if isc(v): return SBOX[v]
    key = tuple(v)
    if key in _S: return _S[key]
    inf = [AT.info.get(f.bit_length() - 1) for f in v]
    if all(f & (f - 1) == 0 and f > 1 and i and i[0][0] == 'IS' and i[1] == k and i[0] == inf[0][0] for k, (f, i) in enumerate(zip(v, inf))): r = norm(list(inf[0][0][1]))
    else: r = list(AT.keyed(('S', key), 8))
    _S[key] = r
    return r
def inv_sub_byte(v):
    if isc(v): return INVS[v]
    key = ('i', tuple(v))
    if key in _S: return _S[key]
    inf = [AT.info.get(f.bit_length() - 1) for f in v]
    if all(f & (f - 1) == 0 and f > 1 and i and i[0][0] == 'S' and i[1] == k and i[0] == inf[0][0] for k, (f, i) in enumerate(zip(v, inf))): r = norm(list(inf[0][0][1]))
    else: r = list(AT.keyed(('IS', tuple(v)), 8))
    _S[key] = r
    return r

def affine_in(col, basis):
    """col[x] = c ^ xor of a subset of the bits of basis[x], for every x?  the subset, or None"""
    n = max(basis).bit_length()
    by = {}
    for x, b in enumerate(basis): by.setdefault(b, x)
    if 0 not in by: return None
    c = col[by[0]]; m = 0
    for k in range(n):
        if 1 << k not in by: return None
        if col[by[1 << k]] ^ c: m |= 1 << k
    return (c, m) if all(col[x] == c ^ bin(b & m).count('1') & 1 for x, b in enumerate(basis)) else None
_tab = {}
def lookup(table, idx, width):
    """table[idx] for a constant table (a tuple of ints) and a symbolic index"""
    n = (len(table) - 1).bit_length()
    if 1 << n != len(table): raise Unsupported('a table of %d entries with an unknown index' % len(table))
    idx = lst(idx, n)
    free = [k for k in range(n) if idx[k] > 1]
    if len(free) <= 3 or n != 8:
        if len(free) > 10: raise Unsupported('an unknown index')
        def go(ks, x):
            if not ks: return lst(table[x], width)
            lo, hi = go(ks[1:], x), go(ks[1:], x | 1 << ks[0])
            return [ITE(idx[ks[0]], h, l) for h, l in zip(hi, lo)]
        return norm(go(free, sum((idx[k] & 1) << k for k in range(n) if k not in free)))
    out = []
    for k in range(width):
        key = (table, k)
        if key not in _tab:
            col = [t >> k & 1 for t in table]
            for nm, b in (('id', list(range(256))), ('S', SBOX), ('IS', INVS)):
                a = affine_in(col, list(b))
                if a: _tab[key] = (nm,) + a; break
            else: _tab[key] = None
        t = _tab[key]
        if t is None: out.append(AT.keyed(('table', table, k, tuple(idx)), 1)[0]); continue
        src = lst({'id': lambda x: x, 'S': sub_byte, 'IS': inv_sub_byte}[t[0]](idx), 8)
        f = t[1]
        for j in range(8):
            if t[2] >> j & 1: f ^= src[j]
        out.append(f)
    return norm(out)

# ------------------------------------------------------------------ memory
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off=0): s.o, s.off = o, off
    def __eq__(s, t): return isinstance(t, Ptr) and s.o == t.o and s.off == t.off
    def __hash__(s): return hash((s.o, s.off))
    def __repr__(s): return '&%s+%d' % (s.o, s.off)
class FnPtr:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __eq__(s, t): return isinstance(t, FnPtr) and s.name == t.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return '&' + s.name
class Obj:
    __slots__ = ('name', 'size', 'ro', 'dead')
    def __init__(s, name, size, ro=False): s.name, s.size, s.ro, s.dead = name, size, ro, False
UNDEF = ('undef',)
class Mem:
    """object -> {offset: byte}; a byte is an int, a list of 8 bits, or (pointer, index)"""
    def __init__(s): s.d = {}; s.own = set(); s.dead = set()
    def clone(s):
        m = Mem(); m.d = dict(s.d); m.dead = set(s.dead); s.own = set(); return m
    def w(s, o):
        if o not in s.own:
            s.d[o] = dict(s.d.get(o, {})); s.own.add(o)
        return s.d[o]
    def r(s, o): return s.d.get(o, {})

class Out:
    """outcomes of a statement: kind -> (guard, memory, value)"""

class Exec:
    MAXSTEP = 40_000_000
    def __init__(s, tu, others=(), models=None, trace=None):
        s.tus = [tu] + list(others); s.tu = tu
        s.models = dict(models or {})
        s.objs = {}; s.mem = Mem(); s.nobj = 0; s.frames = []; s.glob = {}; s.called = set(); s.line = None
        s.writes = {}; s.strs = {}; s.steps = 0
    # ---- objects
    def new(s, name, size, data=None, ro=False):
        s.nobj += 1
        o = '%s#%d' % (name, s.nobj)
        s.objs[o] = Obj(name, size, ro)
        s.mem.d[o] = {}; s.mem.own.add(o)
        if data is not None:
            for i, b in enumerate(data): s.mem.d[o][i] = b
        return Ptr(o)
    def where(s): return '%s:%s' % s.line if s.line else ''
    def fault(s, why): raise Fault('%s (%s)' % (why, s.where()))
    def check(s, p, n, write=False):
        if not isinstance(p, Ptr): s.fault('access through %r' % (p,))
        o = s.objs[p.o]
        if p.o in s.mem.dead: s.fault('access to a released or expired object %s' % o.name)
        if p.off < 0 or p.off + n > o.size: s.fault('access outside of %s (offset %d, %d bytes, size %d)' % (o.name, p.off, n, o.size))
        if write and o.ro: s.fault('write to %s' % o.name)
    def rdb(s, p, n):
        s.check(p, n)
        d = s.mem.r(p.o)
        return [d.get(p.off + i, UNDEF) for i in range(n)]
    def wrb(s, p, bs):
        s.check(p, len(bs), True)
        d = s.mem.w(p.o)
        for i, b in enumerate(bs): d[p.off + i] = b
    def load(s, p, ty):
        t = ty
        if t.k in ('struct', 'array'): return ('agg', s.rdb(p, s.sizeof(t)))
        n = s.sizeof(t)
        return s.from_bytes(s.rdb(p, n), t)
    def from_bytes(s, bs, t):
        if any(b is UNDEF or b == UNDEF for b in bs):
            s.fault('use of an undefined value')
        if isinstance(bs[0], tuple):
            q = bs[0][0]
            if all(isinstance(b, tuple) and b[0] == q and b[1] == i for i, b in enumerate(bs)) and len(bs) == 8: return q
            raise Unsupported('part of a pointer')
        if any(isinstance(b, tuple) for b in bs): raise Unsupported('part of a pointer')
        if all(isc(b) for b in bs): v = sum(b << 8 * i for i, b in enumerate(bs))
        else: v = norm([f for b in bs for f in lst(b, 8)])
        if t.k == 'bool' and not isc(v): return norm(v[:1])
        return v
    def to_bytes(s, v, t):
        n = s.sizeof(t)
        if isinstance(v, tuple) and v[0] == 'agg': return v[1]
        if v is UNDEF: return [UNDEF] * n
        if isinstance(v, (Ptr, FnPtr)): return [(v, i) for i in range(8)]
        if isc(v): return [v >> 8 * i & 255 for i in range(n)]
        v = lst(v, 8 * n)
        return [norm(v[8 * i:8 * i + 8]) for i in range(n)]
    def store(s, p, v, ty): s.wrb(p, s.to_bytes(v, ty))
    def addr(s, p): return (int(p.o.rsplit('#')[1]) << 33) + p.off if isinstance(p, Ptr) else p if isc(p) else 1 << 20
    # ---- types (each of the TUs knows its own)
    def sizeof(s, t): return s.tu.sizeof(t)
    def bits(s, t):
        if t.k == 'ptr': return 64
        if t.k == 'bool': return 1
        return t.bits
    def conv(s, v, a, b):
        """from type a to type b"""
        if isinstance(v, (Ptr, FnPtr)) or (isinstance(v, tuple)):
            if b.k == 'bool': return 1
            return v
        if b.k == 'bool': return norm([nz(v, s.bits(a))]) if not isc(v) else int(v != 0)
        if a.k == 'ptr' or b.k == 'ptr':
            if isc(v): return v
            raise Unsupported('an unknown pointer value')
        na, nb = s.bits(a), s.bits(b)
        if nb <= na: return v & ((1 << nb) - 1) if isc(v) else norm(lst(v, nb))
        if a.k == 'int' and a.signed:
            if isc(v): return v | (((1 << nb) - 1) ^ ((1 << na) - 1)) if v >> (na - 1) & 1 else v
            L = lst(v, na); return norm(L + [L[-1]] * (nb - na))
        return v if isc(v) else lst(v, nb)
    def sint(s, v, t):
        """known value as a python int"""
        if not isc(v): raise Unsupported('a size, count or index that depends on the data')
        n = s.bits(t)
        return v - (1 << n) if t.k == 'int' and t.signed and v >> (n - 1) & 1 else v
    # ---- globals
    def global_ptr(s, name):
        if name in s.glob: return s.glob[name]
        best = None
        for tu in s.tus:
            if name in tu.globals and (tu.globals[name][2] is not None): best = tu; break
        if best is None: raise Unsupported('object %s without a definition' % name)
        nm, ty, ini = best.globals[name]
        if name not in best.const: raise Unsupported('variable %s with static storage' % name)
        old, s.tu = s.tu, best
        if ty.k == 'array' and ty.n is None: ty = CT('array', to=ty.to, n=len([x for x in ini.inner if x.kind != 'Empty' and 'array_filler' not in x.j]))
        p = s.new(name, s.sizeof(ty)); s.glob[name] = p
        s.init_obj(p, ty, ini, zero=True); s.objs[p.o].ro = True
        s.tu = old
        return p
    def init_obj(s, p, ty, ini, zero=False):
        n = s.sizeof(ty)
        if ini is None:
            if zero: s.wrb(p, [0] * n)
            return
        while ini.kind in ('ConstantExpr', 'ExprWithCleanups', 'ParenExpr'): ini = ini.inner[0]
        if ini.kind == 'InitListExpr':
            s.wrb(p, [0] * n)
            kids = ini.inner
            fil = [d for d in ini.j.get('array_filler', [])]
            if fil: kids = [x for x in ini.inner] or [s.tu._node(d) for d in fil[1:] if 'kind' in d]
            if ty.k == 'array':
                sz = s.sizeof(ty.to)
                for i, c in enumerate(kids):
                    if c.kind == 'ImplicitValueInitExpr': continue
                    s.init_obj(Ptr(p.o, p.off + i * sz), ty.to, c)
            elif ty.k == 'struct':
                fs = s.layout(ty)
                if s.tu.record(ty)[0] == 'union':
                    f = ini.j.get('field', {}).get('name')
                    fs = [x for x in fs if f in (None, x[0])][:1]
                for (fn, off, ft), c in zip(fs, kids):
                    if c.kind == 'ImplicitValueInitExpr': continue
                    s.init_obj(Ptr(p.o, p.off + off), ft, c)
            else:
                if kids: s.init_obj(p, ty, kids[0])
            return
        if ini.kind == 'StringLiteral' and ty.k == 'array':
            b = cstr(ini); s.wrb(p, list((b + bytes(n))[:n])); return
        v = s.ev(ini)
        s.store(p, v, ty)
    def layout(s, t):
        tag, fs = s.tu.record(t); off = 0; out = []
        for n, ft in fs:
            ft = s.tu.ctype_s(ft); a = s.tu.alignof(ft)
            off = 0 if tag == 'union' else (off + a - 1) // a * a
            out.append((n, off, ft)); off += s.sizeof(ft)
        return out
    # ---- lvalues
    def lv(s, n):
        k = n.kind
        s.line = (n.file, n.line) if n.line else s.line
        if k in ('ParenExpr', 'ConstantExpr', 'GenericSelectionExpr'): return s.lv(n.inner[0])
        if k == 'DeclRefExpr':
            d = n.j['referencedDecl']
            for f in (s.frames[-1],):
                if d['id'] in f: return f[d['id']]
            return s.global_ptr(d['name']) if d['kind'] != 'FunctionDecl' else FnPtr(d['name'])
        if k == 'UnaryOperator' and n.j['opcode'] == '*': return s.ev(n.inner[0])
        if k == 'UnaryOperator' and n.j['opcode'] == '__extension__': return s.lv(n.inner[0])
        if k == 'ArraySubscriptExpr':
            a, b = n.inner
            pa, pb = s.ev(a), s.ev(b)
            if s.tu.nty(a).k != 'ptr': a, b, pa, pb = b, a, pb, pa
            et = s.tu.nty(n)
            if not isc(pb): return ('sym', pa, pb, s.bits(s.tu.nty(b)), et)
            return s.padd(pa, s.sint(pb, s.tu.nty(b)) * s.sizeof(et))
        if k == 'MemberExpr':
            b = n.inner[0]
            if n.j.get('isArrow'): p = s.ev(b); bt = s.tu.nty(b).to
            else: p = s.lv(b); bt = s.tu.nty(b)
            f = n.j['name']
            for fn, off, ft in s.layout(bt):
                if fn == f: return s.padd(p, off)
            raise Unsupported('member ' + f)
        if k == 'CompoundLiteralExpr':
            ty = s.tu.nty(n); p = s.new('literal', s.sizeof(ty)); s.init_obj(p, ty, n.inner[0], True); return p
        if k == 'StringLiteral':
            key = id(n)
            if key not in s.strs:
                b = cstr(n) + b'\0'; s.strs[key] = s.new('string', len(b), list(b), True)
            return s.strs[key]
        if k == 'ImplicitCastExpr' and n.j.get('castKind') == 'NoOp': return s.lv(n.inner[0])
        if k in ('CallExpr', 'ConditionalOperator', 'StmtExpr', 'BinaryOperator', 'ImplicitCastExpr') and s.tu.nty(n).k == 'struct':
            v = s.ev(n); p = s.new('temporary', s.sizeof(s.tu.nty(n))); s.store(p, v, s.tu.nty(n)); return p
        raise Unsupported('lvalue ' + k)
    def padd(s, p, d):
        if isinstance(p, Ptr):
            return Ptr(p.o, p.off + d)
        if d == 0: return p
        s.fault('arithmetic on %r' % (p,))
    def getv(s, p, ty):
        if isinstance(p, tuple) and p[0] == 'sym':
            _, b, i, n, et = p
            if not isinstance(b, Ptr): s.fault('access through %r' % (b,))
            z = s.sizeof(et); o = s.objs[b.o]
            cnt = (o.size - b.off) // z
            L = lst(i, n)
            m = 1
            for k, f in enumerate(L):
                if f: m = k + 1
            if cnt < 1 << m: s.fault('index of up to %d into %s' % ((1 << m) - 1, o.name))
            bs = s.rdb(b, z << m)
            if not all(isc(x) for x in bs): raise Unsupported('an unknown index')
            tab = tuple(sum(bs[j * z + q] << 8 * q for q in range(z)) for j in range(1 << m))
            return lookup(tab, L[:m], 8 * z)
        if isinstance(p, FnPtr): return p
        return s.load(p, ty)
    # ---- expressions
    def ev(s, n):
        k = n.kind
        m = getattr(s, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n)
    def e_ParenExpr(s, n): return s.ev(n.inner[0])
    e_ConstantExpr = e_GenericSelectionExpr = e_ParenExpr
    def e_IntegerLiteral(s, n): return int(n.j['value']) & ((1 << s.bits(s.tu.nty(n))) - 1)
    def e_CharacterLiteral(s, n): return int(n.j['value']) & 0xffffffff
    def e_ImplicitValueInitExpr(s, n):
        t = s.tu.nty(n); return 0 if t.k != 'struct' else ('agg', [0] * s.sizeof(t))
    def e_StringLiteral(s, n): return s.lv(n)
    def e_DeclRefExpr(s, n):
        d = n.j['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            for tu in s.tus:
                if d['name'] in tu.enums: return tu.enums[d['name']] & 0xffffffff
        return s.getv(s.lv(n), s.tu.nty(n))
    def e_MemberExpr(s, n): return s.getv(s.lv(n), s.tu.nty(n))
    e_ArraySubscriptExpr = e_CompoundLiteralExpr = e_MemberExpr
    def e_InitListExpr(s, n):
        t = s.tu.nty(n); p = s.new('literal', s.sizeof(t)); s.init_obj(p, t, n, True); return s.load(p, t)
    def e_UnaryExprOrTypeTraitExpr(s, n):
        nm = n.j.get('name')
        t = s.tu.ctype(n.j['argType']) if 'argType' in n.j else s.tu.nty(n.inner[0])
        if n.inner and 'argType' not in n.j:
            x = n.inner[0]
            while x.kind == 'ParenExpr': x = x.inner[0]
            if x.kind == 'StringLiteral': t = s.tu.nty(x)
        return s.sizeof(t) if nm == 'sizeof' else s.tu.alignof(t)
    def e_OffsetOfExpr(s, n): raise Unsupported('offsetof')
    def e_PredefinedExpr(s, n): return s.lv(n.inner[0])
    def e_StmtExpr(s, n): raise Unsupported('statement expression')
    def e_ImplicitCastExpr(s, n):
        ck = n.j.get('castKind'); x = n.inner[0]; t = s.tu.nty(n)
        if ck == 'LValueToRValue': return s.getv(s.lv(x), s.tu.nty(x))
        if ck == 'ArrayToPointerDecay': return s.lv(x)
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return s.ev(x) if x.kind != 'DeclRefExpr' else FnPtr(x.j['referencedDecl']['name']) if x.j['referencedDecl']['kind'] == 'FunctionDecl' else s.lv(x)
        v = s.ev(x)
        if ck == 'NullToPointer': return 0
        if ck in ('BitCast', 'NoOp'): return v
        if ck == 'ToVoid': return None
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral', 'IntegralToPointer', 'PointerToIntegral'):
            if ck == 'PointerToIntegral' and not isc(v): raise Unsupported('a pointer as an integer')
            return s.conv(v, s.tu.nty(x), t)
        raise Unsupported('cast ' + str(ck))
    e_CStyleCastExpr = e_ImplicitCastExpr
    def e_UnaryOperator(s, n):
        op = n.j['opcode']; x = n.inner[0]; t = s.tu.nty(x)
        s.line = (n.file, n.line) if n.line else s.line
        if op == '&': return s.lv(x)
        if op == '*': return s.getv(s.lv(n), s.tu.nty(n))
        if op in ('++', '--'):
            p = s.lv(x); v = s.getv(p, t); d = 1 if op == '++' else -1
            if t.k == 'ptr': w = s.padd(v, d * s.sizeof(t.to))
            else:
                w = add(v, d & ((1 << s.bits(t)) - 1), s.bits(t))
                if t.k == 'bool': w = 1 if op == '++' else norm([NOT(f) for f in lst(v, 1)])
                s.ovf(v, d, op[0], t) if t.bits >= 32 else None
            s.store(p, w, t)
            return v if n.j.get('isPostfix') else w
        v = s.ev(x); r = s.tu.nty(n)
        if op == '!': return norm([NOT(s.truth(v, t))])
        if op == '-': return sub(0, v, s.bits(r))
        if op == '~': return inv(v, s.bits(r)) if isc(v) else norm(inv(v, s.bits(r)))
        if op in ('+', '__extension__'): return v
        raise Unsupported('operator ' + op)
    def truth(s, v, t):
        if isinstance(v, (Ptr, FnPtr)): return 1
        return nz(v, s.bits(t))
    def ovf(s, a, b, op, t):
        if t.k == 'int' and t.signed and isc(a) and isc(b):
            x, y = s.sint(a, t), s.sint(b & ((1 << t.bits) - 1), t)
            r = x + y if op == '+' else x - y if op == '-' else x * y
            if not t.lo <= r <= t.hi: s.fault('signed overflow')
    def binop(s, op, a, b, ta, tb, r):
        n = s.bits(r) if r.k in ('int', 'bool', 'ptr') else 32
        if ta.k == 'ptr' or tb.k == 'ptr':
            if op in ('==', '!='):
                if isc(a) and isc(b): e = a == b
                elif isinstance(a, (Ptr, FnPtr)) and isinstance(b, (Ptr, FnPtr)):
                    e = a == b
                else: e = False
                return int(e == (op == '=='))
            if ta.k == 'ptr' and tb.k == 'ptr':
                if a == b: x, y = 0, 0
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: x, y = a.off, b.off
                else: x, y = s.addr(a), s.addr(b)      # any distance apart
                if op == '-': return ((x - y) // s.sizeof(ta.to)) & ((1 << 64) - 1)
                return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
            if tb.k == 'ptr': a, b, ta, tb = b, a, tb, ta
            d = s.sint(b, tb) * s.sizeof(ta.to)
            return s.padd(a, d if op == '+' else -d)
        na = s.bits(ta)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if isc(a) and isc(b):
                x, y = s.sint(a, ta), s.sint(b, tb)
                return int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
            if op in ('==', '!='): f = eqv(a, b, na); return norm([f if op == '==' else f ^ 1])
            if ta.k == 'int' and ta.signed:
                a, b = lst(a, na), lst(b, na); a = a[:-1] + [a[-1] ^ 1]; b = b[:-1] + [b[-1] ^ 1]
            if op in ('>', '<='): a, b = b, a
            f = ult(a, b, na)
            return norm([f if op in ('<', '>') else f ^ 1])
        if op == '+': s.ovf(a, b, '+', r); return add(a, b, n)
        if op == '-': s.ovf(a, b, '-', r); return sub(a, b, n)
        if op == '*': s.ovf(a, b, '*', r); return mul(a, b, n)
        if op in ('/', '%'):
            if not isc(b): raise Unsupported('division by an unknown value')
            if b == 0: s.fault('division by zero')
            if not isc(a):
                if not (r.k == 'int' and r.signed) and b & (b - 1) == 0:
                    k = b.bit_length() - 1; L = lst(a, n)
                    return norm(L[k:] + [0] * k) if op == '/' else norm(L[:k] + [0] * (n - k))
                raise Unsupported('division of an unknown value')
            x, y = s.sint(a, r), s.sint(b, r)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == '/' else x - q * y) & ((1 << n) - 1)
        if op in ('<<', '>>'):
            k = s.sint(b, tb)
            if not 0 <= k < n: s.fault('shift by %d' % k)
            if op == '<<': return shl(a, k, n)
            if r.k == 'int' and r.signed:
                if isc(a): return (s.sint(a, r) >> k) & ((1 << n) - 1)
                L = lst(a, n); return norm(L[k:] + [L[-1]] * k)
            return a >> k if isc(a) else norm(lst(a, n)[k:] + [0] * k)
        if op in '&|^':
            if isc(a) and isc(b): return {'&': a & b, '|': a | b, '^': a ^ b}[op]
            f = {'&': AND, '|': OR, '^': lambda x, y: x ^ y}[op]
            return norm([f(x, y) for x, y in zip(lst(a, n), lst(b, n))])
        raise Unsupported('operator ' + op)
    def e_BinaryOperator(s, n):
        op = n.j['opcode']; L, R = n.inner
        s.line = (n.file, n.line) if n.line else s.line
        s.steps += 1
        if op == '=':
            v = s.ev(R); p = s.lv(L)
            if isinstance(p, tuple): raise Unsupported('store at an unknown index')
            s.store(p, v, s.tu.nty(L)); return v
        if op == ',': s.ev(L); return s.ev(R)
        if op in ('&&', '||'):
            a = s.truth(s.ev(L), s.tu.nty(L))
            if a == (0 if op == '&&' else 1): return a
            if a in (0, 1): return norm([s.truth(s.ev(R), s.tu.nty(R))])
            m0 = s.mem.clone(); b = s.truth(s.ev(R), s.tu.nty(R))
            if op == '&&': s.mem = s.merge(a, s.mem, m0); return norm([AND(a, b)])
            s.mem = s.merge(a, m0, s.mem); return norm([OR(a, b)])
        a, b = s.ev(L), s.ev(R)
        return s.binop(op, a, b, s.tu.nty(L), s.tu.nty(R), s.tu.nty(n))
    def e_CompoundAssignOperator(s, n):
        op = n.j['opcode'][:-1]; L, R = n.inner
        s.line = (n.file, n.line) if n.line else s.line
        tl = s.tu.nty(L)
        v = s.ev(R); p = s.lv(L)
        if isinstance(p, tuple): raise Unsupported('store at an unknown index')
        a = s.getv(p, tl)
        if tl.k == 'ptr':
            w = s.binop(op, a, v, tl, s.tu.nty(R), tl)
        else:
            ct = s.tu.ctype(n.j['computeResultType']); cl = s.tu.ctype(n.j['computeLHSType'])
            w = s.conv(s.binop(op, s.conv(a, tl, cl), v, cl, s.tu.nty(R), ct), ct, tl)
        s.store(p, w, tl); return w
    def e_ConditionalOperator(s, n):
        C, A, B = n.inner
        c = s.truth(s.ev(C), s.tu.nty(C))
        if c in (0, 1): return s.ev(A if c else B)
        m0 = s.mem.clone(); a = s.ev(A); ma = s.mem
        s.mem = m0; b = s.ev(B)
        s.mem = s.merge(c, ma, s.mem)
        return s.mergev(c, a, b)
    def mergev(s, c, a, b):
        if c == 1: return a
        if c == 0: return b
        if a is None or b is None: return None
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)) :
            if a == b: return a
            raise Unsupported('a pointer that depends on the data')
        if isinstance(a, tuple) and a and a[0] == 'agg': return ('agg', [s.mergeb(c, x, y) for x, y in zip(a[1], b[1])])
        if isc(a) and isc(b) and a == b: return a
        n = max(len(x) if not isc(x) else x.bit_length() for x in (a, b))
        return norm([ITE(c, x, y) for x, y in zip(lst(a, n), lst(b, n))])
    def mergeb(s, c, x, y):
        if x == y: return x
        if x is UNDEF or y is UNDEF or x == UNDEF or y == UNDEF: return UNDEF
        if isinstance(x, tuple) or isinstance(y, tuple): raise Unsupported('a pointer that depends on the data')
        return norm([ITE(c, p, q) for p, q in zip(lst(x, 8), lst(y, 8))])
    def merge(s, c, a, b):
        if a is b or c == 1: return a
        if c == 0: return b
        m = Mem(); m.dead = a.dead | b.dead
        for o in set(a.d) | set(b.d):
            x, y = a.d.get(o), b.d.get(o)
            if x is y or y is None: m.d[o] = x; continue
            if x is None: m.d[o] = y; continue
            r = {}
            for k in set(x) | set(y):
                p, q = x.get(k, UNDEF), y.get(k, UNDEF)
                try: r[k] = s.mergeb(c, p, q)
                except Unsupported: r[k] = UNDEF if s.objs[o].name.startswith('local') else s.raise_()
            m.d[o] = r
        a.own = set(); b.own = set()
        return m
    def raise_(s): raise Unsupported('a pointer that depends on the data')
    # ---- calls
    def e_CallExpr(s, n):
        f = s.ev(n.inner[0])
        if not isinstance(f, FnPtr): s.fault('call of %r' % (f,))
        args = [s.ev(x) for x in n.inner[1:]]
        s.line = (n.file, n.line) if n.line else s.line
        return s.call(f.name, args, [s.tu.nty(x) for x in n.inner[1:]])
    def call(s, name, args, tys=None):
        s.called.add(name)
        if name in s.models: return s.models[name](s, args)
        if name in LIBC: return LIBC[name](s, args)
        for tu in [s.tu] + s.tus:
            if name in tu.funcs: break
        else: raise Unsupported('call of %s' % name)
        f = tu.funcs[name]
        old = s.tu, s.line; s.tu = tu
        if len(s.frames) > 60: raise Unsupported('recursion')
        fr = {}; mine = []
        for (pn, pid, ty), v in zip(f.params, args):
            if ty.k == 'array': ty = CT('ptr', 64, to=ty.to)
            p = s.new('local ' + pn, s.sizeof(ty)); s.store(p, v, ty); fr[pid] = p; mine.append(p.o)
        s.frames.append(fr)
        out = s.ex(f.body)
        r = s.finish(out, ('return', 'normal'))
        s.frames.pop()
        for p in fr.values():
            if isinstance(p, Ptr) and s.objs[p.o].name.startswith('local'): s.mem.d.pop(p.o, None); s.mem.dead.add(p.o)
        s.tu, s.line = old
        return r
    def finish(s, out, kinds):
        """merges the outcomes of a function body"""
        items = [(g, m, v) for k, (g, m, v) in out.items()]
        if not all(k in kinds for k in out): raise Unsupported('jump out of a function')
        g, m, v = items[0]
        for g2, m2, v2 in items[1:]:
            v = s.mergev(g2, v2, v) if v2 is not None and v is not None else (v2 if v is None else v)
            m = s.merge(g2, m2, m)
        s.mem = m
        return v
    # ---- statements: outcomes {kind: (guard, memory, value)}
    def join(s, out, k, g, m, v=None):
        if g == 0: return
        if k in out:
            g0, m0, v0 = out[k]
            out[k] = (g0 ^ g, s.merge(g, m, m0), v if v0 is None else v0 if v is None else s.mergev(g, v, v0))
        else: out[k] = (g, m, v)
    def ex(s, n, g=1):
        """runs n on s.mem, which holds under guard g"""
        s.steps += 1
        if s.steps > s.MAXSTEP: raise Unsupported('too many steps')
        m = getattr(s, 'x_' + n.kind, None)
        if m: return m(n, g)
        if n.kind.endswith(('Expr', 'Operator', 'Literal')):
            s.ev(n); return {'normal': (g, s.mem, None)}
        raise Unsupported('statement ' + n.kind)
    def seq(s, nodes, g):
        out = {}
        for n in nodes:
            o = s.ex(n, g)
            nxt = o.pop('normal', None)
            for k, (a, m, v) in o.items(): s.join(out, k, a, m, v)
            if nxt is None: return out
            g, s.mem = nxt[0], nxt[1]
        s.join(out, 'normal', g, s.mem)
        return out
    def x_CompoundStmt(s, n, g): return s.seq(n.inner, g)
    def x_NullStmt(s, n, g): return {'normal': (g, s.mem, None)}
    x_Empty = x_NullStmt
    def x_DeclStmt(s, n, g):
        last = None
        for d in n.inner:
            if d.kind == 'RecordDecl': last = d; continue
            if d.kind in ('TypedefDecl', 'StaticAssertDecl', 'EmptyDecl'): continue
            if d.kind != 'VarDecl': raise Unsupported('declaration ' + d.kind)
            ty = s.tu.nty(d)
            t = ty
            while t.k == 'array': t = t.to
            if t.k == 'struct' and t.name not in s.tu.records and last is not None:
                s.tu.records[t.name] = (last.j.get('tagUsed', 'struct'), [(c['name'], c['type'].get('desugaredQualType', c['type']['qualType'])) for c in last.j.get('inner', []) if c.get('kind') == 'FieldDecl'])
            ini = [c for c in d.inner if not c.kind.endswith('Attr')]
            if ty.k == 'array' and ty.n is None: raise Unsupported('array of unknown size')
            if d.j.get('storageClass') == 'static':
                if not d.j['type']['qualType'].startswith('const'): raise Unsupported('variable %s with static storage' % d.j['name'])
                key = (s.tu.path, d.j['id'])
                if key not in s.glob: s.glob[key] = s.new(d.j['name'], s.sizeof(ty)); s.init_obj(s.glob[key], ty, ini[0], True)
                s.frames[-1][d.j['id']] = s.glob[key]
                continue
            p = s.new('local ' + d.j['name'], s.sizeof(ty)); s.frames[-1][d.j['id']] = p
            if ini: s.init_obj(p, ty, ini[0])
        return {'normal': (g, s.mem, None)}
    def x_ReturnStmt(s, n, g):
        v = s.ev(n.inner[0]) if n.inner else None
        return {'return': (g, s.mem, v)}
    def x_BreakStmt(s, n, g): return {'break': (g, s.mem, None)}
    def x_ContinueStmt(s, n, g): return {'continue': (g, s.mem, None)}
    def x_IfStmt(s, n, g):
        C, T = n.inner[0], n.inner[1]
        E = n.inner[2] if len(n.inner) > 2 else None
        c = s.truth(s.ev(C), s.tu.nty(C))
        if c in (0, 1):
            if c: return s.ex(T, g)
            return s.ex(E, g) if E is not None else {'normal': (g, s.mem, None)}
        m0 = s.mem.clone()
        out = {}
        for k, (a, m, v) in s.ex(T, AND(g, c)).items(): s.join(out, k, a, m, v)
        s.mem = m0
        for k, (a, m, v) in (s.ex(E, AND(g, c ^ 1)) if E is not None else {'normal': (AND(g, c ^ 1), s.mem, None)}).items(): s.join(out, k, a, m, v)
        return out
    def loop(s, g, cond, body, inc, first):
        out = {}; it = 0
        while True:
            it += 1
            if it > 70000: raise Unsupported('a loop that does not end')
            if not (first and it == 1) and cond is not None:
                c = s.truth(s.ev(cond), s.tu.nty(cond))
                if c == 0: s.join(out, 'normal', g, s.mem); return out
                if c != 1:
                    s.join(out, 'normal', AND(g, c ^ 1), s.mem.clone()); g = AND(g, c)
                    if g == 0: return out
                    if it > 300: raise Unsupported('a loop whose length depends on the data')
            o = s.ex(body, g)
            nx = {}
            for k, (a, m, v) in o.items():
                if k == 'break': s.join(out, 'normal', a, m)
                elif k in ('normal', 'continue'): s.join(nx, 'n', a, m)
                else: s.join(out, k, a, m, v)
            if not nx: return out
            g, s.mem = nx['n'][0], nx['n'][1]
            if inc is not None: s.ev(inc)
    def x_WhileStmt(s, n, g): return s.loop(g, n.inner[0], n.inner[1], None, False)
    def x_DoStmt(s, n, g): return s.loop(g, n.inner[1], n.inner[0], None, True)
    def x_ForStmt(s, n, g):
        init, _, c, inc, body = n.inner
        if init.kind != 'Empty': s.ex(init, g)
        return s.loop(g, None if c.kind == 'Empty' else c, body, None if inc.kind == 'Empty' else inc, False)
    def x_SwitchStmt(s, n, g):
        v = s.sint(s.ev(n.inner[0]), s.tu.nty(n.inner[0])); items = n.inner[-1].inner
        flat = []; start = None; dflt = None
        for it in items:
            while it.kind in ('CaseStmt', 'DefaultStmt'):
                if it.kind == 'DefaultStmt': dflt = len(flat); it = it.inner[-1]
                else:
                    c = it.inner[0]
                    if s.sint(s.ev(c), s.tu.nty(c)) == v and start is None: start = len(flat)
                    it = it.inner[-1]
            flat.append(it)
        if start is None: start = dflt
        if start is None: return {'normal': (g, s.mem, None)}
        o = s.seq(flat[start:], g); out = {}
        for k, (a, m, w) in o.items(): s.join(out, 'normal' if k == 'break' else k, a, m, w)
        return out
    def x_LabelStmt(s, n, g): return s.ex(n.inner[0], g)
    def x_AttributedStmt(s, n, g): return s.ex(n.inner[-1], g)

def cstr(n):
    import ast
    v = n.j['value']
    return ast.literal_eval(v).encode('latin1') if v.startswith('"') else v.encode()

# ------------------------------------------------------------------ library functions
def _n(s, v): return s.sint(v, ULONG)
def l_memcpy(s, a):
    n = _n(s, a[2])
    if n and isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].o == a[1].o and abs(a[0].off - a[1].off) < n: s.fault('memcpy of overlapping regions')
    return l_memmove(s, a)
def l_memmove(s, a):
    n = _n(s, a[2])
    if n: s.wrb(a[0], s.rdb(a[1], n))
    return a[0]
def l_memset(s, a):
    n = _n(s, a[2])
    if n: s.wrb(a[0], [norm(lst(a[1], 8))] * n)
    return a[0]
def l_assert(s, a): s.fault('assertion')
LIBC = {}
for _p in ('', '__builtin_'):
    for _k, _v in (('memcpy', l_memcpy), ('memmove', l_memmove), ('memset', l_memset)): LIBC[_p + _k] = _v
LIBC['__builtin___memcpy_chk'] = l_memcpy; LIBC['__builtin___memset_chk'] = l_memset; LIBC['__builtin___memmove_chk'] = l_memmove
LIBC['__assert_fail'] = LIBC['abort'] = l_assert
