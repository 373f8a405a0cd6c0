"""Trusted models of the C library functions the code calls (C locale; memory functions accept null with length 0)."""
from .sym import *
from . import theory
from .theory import u8, s8, toup
from .engine import OPtr, Fn, Region, Undef
import z3
MODELS = {}
def model(name):
    def d(f):
        MODELS[name] = f
        return f
    return d

def base_for(ex, st, mem, d, n):
    """a Base whose bytes agree with mem on [d, d+n)"""
    if not mem.log: return mem.base
    log = []
    for u in mem.log:
        lo, ln = (u[1], 1) if u[0] == 'w' else (u[1], u[2])
        if ex.prove(st, Or(le(n, 0), le(ln, 0), le(add(d, n), lo), le(add(lo, ln), d)), 1500): continue
        log.append(u)
    if not log: return mem.base
    from .engine import Mem
    if log and log[-1][0] == 'h' and ex.prove(st, And(le(log[-1][1], d), le(add(d, n), add(log[-1][1], log[-1][2]))), 1500): return log[-1][3]
    m2 = Mem(mem.base, tuple(mem.log))
    key = ('mat', tuple(id(u) for u in mem.log), str(d), str(n))
    if key in ex.opaque: return ex.opaque[key]
    b = ex.th.new_base()
    k = z3.Int('k')
    ex.th.axiom(z3.ForAll([k], z3.Implies(z3.And(Z(I(d)) <= k, k < Z(add(d, n))), b.H(k) == Z(I(m2.rd(k)))), patterns=[b.H(k)]))
    ex.opaque[key] = b
    return b

def chk(ex, st, p, n, write, node):
    if isinstance(p, OPtr): ex.unsupported('memory function on a typed object', node)
    return ex.access(st, p, n, write, node)

def cell_copy(ex, st, d, s, n, node):
    """memcpy of whole objects"""
    if isinstance(d, OPtr) and isinstance(s, OPtr):
        td, ts = ex.path_type(d), ex.path_type(s)
        if td is not None and td == ts and isinstance(n, int) and n == ex.sizeof(td):
            v = ex.load(st, ('c', s.cell, s.path, ts), node)
            ex.store_lv(st, ('c', d.cell, d.path, td), v, node)
            return True
    return False

@model('memcpy')
def m_memcpy(ex, st, vs, node, over=False):
    d, s, n = vs[:3]
    if cell_copy(ex, st, d, s, n, node): return [(st, d)]
    if isinstance(n, int) and n == 0: return [(st, d)]
    chk(ex, st, s, n, False, node)
    r = chk(ex, st, d, n, True, node)
    if not over:
        ex.oblige(st, Or(le(n, 0), le(add(d, n), s), le(add(s, n), d)), 'safe', 'memcpy: source and destination do not overlap', node)
    ex.note_write(st, d, n, r, node)
    if isinstance(n, int) and n == 1: st.mem = st.mem.upd('w', I(d), st.mem.rd(s))
    else: st.mem = st.mem.upd('c', I(d), I(n), I(s))
    return [(st, d)]
@model('memmove')
def m_memmove(ex, st, vs, node): return m_memcpy(ex, st, vs, node, over=True)
for nm in ('__builtin_memcpy', '__builtin___memcpy_chk', '__memcpy_chk'): MODELS[nm] = m_memcpy
for nm in ('__builtin_memmove', '__builtin___memmove_chk'): MODELS[nm] = m_memmove

@model('memset')
def m_memset(ex, st, vs, node):
    d, c, n = vs[:3]
    if isinstance(d, OPtr):
        ex.unsupported('memset of a typed object', node)
    r = chk(ex, st, d, n, True, node)
    ex.note_write(st, d, n, r, node)
    st.mem = st.mem.upd('f', I(d), I(n), s8(fmod(c, 256)))
    return [(st, d)]
MODELS['__builtin_memset'] = m_memset

def diff_result(ex, st, p, q, n, nocase, node):
    b = base2(ex, st, p, q, n)
    d = b.DIFF(p, q, n, nocase)
    r = fresh_int('cmp')
    f = (lambda x: toup(u8(x))) if nocase else u8
    st.assume(z3.And(r >= -2**31, r < 2**31))
    st.assume(Iff(eq(r, 0), eq(d, n)))
    st.assume(Implies(lt(d, n), Iff(lt(r, 0), lt(f(b.rd(add(p, d))), f(b.rd(add(q, d)))))))
    return r

def base2(ex, st, p, q, n):
    b1 = base_for(ex, st, st.mem, p, n); b2 = base_for(ex, st, st.mem, q, n)
    if b1 is b2: return b1
    b = ex.th.new_base()
    k = z3.Int('k')
    for (x, bb) in ((p, b1), (q, b2)):
        ex.th.axiom(z3.ForAll([k], z3.Implies(z3.And(Z(I(x)) <= k, k < Z(add(x, n))), b.H(k) == bb.H(k)), patterns=[b.H(k)]))
    return b

@model('memcmp')
def m_memcmp(ex, st, vs, node):
    p, q, n = vs
    chk(ex, st, p, n, False, node); chk(ex, st, q, n, False, node)
    return [(st, diff_result(ex, st, p, q, n, False, node))]
MODELS['__builtin_memcmp'] = m_memcmp

def find_len(ex, st, p, node):
    """length of the C string at p"""
    if not isinstance(p, int):
        for a, n in ex.cstrs:
            if not isinstance(a, int) and (a.eq(p)): return n
        for a, n in ex.cstrs:
            if ex.prove(st, And(le(a, p), le(p, add(a, n))), 1500): return sub(add(a, n), p)
    return None

@model('strlen')
def m_strlen(ex, st, vs, node):
    p = vs[0]
    if isinstance(p, OPtr): ex.unsupported('strlen of object', node)
    n = find_len(ex, st, p, node)
    if n is None:
        ex.oblige(st, False, 'safe', 'strlen: the argument is a known zero terminated string', node)
        n = fresh_int('len'); st.assume(z3.And(n >= 0, n < 2**31))
    return [(st, n)]
MODELS['__builtin_strlen'] = m_strlen

@model('strnlen')
def m_strnlen(ex, st, vs, node):
    n = find_len(ex, st, vs[0], node)
    if n is None: ex.unsupported('strnlen', node)
    return [(st, Ite(lt(n, vs[1]), n, vs[1]))]

def m_chr(ex, st, p, c, n, last, node, limit=None):
    """first/last occurrence of c in [p,p+n): pointer or null"""
    b = base_for(ex, st, st.mem, p, n)
    c = s8(fmod(c, 256))
    r = fresh_int('chr')
    found = b.IN(p, n, c)
    k = z3.Int('k')
    st.assume(Ite(found, And(le(p, r), lt(r, add(p, n)), eq(b.rd(r), c)), eq(r, 0)))
    rng = z3.And(Z(I(p)) <= k, k < Z(r)) if not last else z3.And(Z(r) < k, k < Z(add(p, n)))
    st.assume(Implies(found, z3.ForAll([k], z3.Implies(rng, b.H(k) != Z(I(c))), patterns=[b.H(k)])))
    return r

@model('memchr')
def m_memchr(ex, st, vs, node):
    p, c, n = vs
    chk(ex, st, p, n, False, node)
    return [(st, m_chr(ex, st, p, c, n, False, node))]
MODELS['__builtin_memchr'] = m_memchr
@model('memrchr')
def m_memrchr(ex, st, vs, node):
    p, c, n = vs
    chk(ex, st, p, n, False, node)
    return [(st, m_chr(ex, st, p, c, n, True, node))]
@model('strchr')
def m_strchr(ex, st, vs, node):
    p, c = vs
    n = find_len(ex, st, p, node)
    if n is None: ex.unsupported('strchr', node)
    return [(st, m_chr(ex, st, p, c, add(n, 1), False, node))]
MODELS['__builtin_strchr'] = m_strchr
@model('strrchr')
def m_strrchr(ex, st, vs, node):
    p, c = vs
    n = find_len(ex, st, p, node)
    if n is None: ex.unsupported('strrchr', node)
    return [(st, m_chr(ex, st, p, c, add(n, 1), True, node))]

def ctype_arg(ex, st, c, node):
    # glibc tables cover -128..255
    ex.oblige(st, And(le(-128, c), le(c, 255)), 'safe', 'argument of a ctype function is in range', node)
    return c
@model('toupper')
def m_toupper(ex, st, vs, node):
    c = ctype_arg(ex, st, vs[0], node)
    return [(st, Ite(lt(c, -1), add(c, 256), toup(c)))]
@model('tolower')
def m_tolower(ex, st, vs, node):
    c = ctype_arg(ex, st, vs[0], node)
    return [(st, Ite(lt(c, -1), add(c, 256), Ite(And(ge(c, 65), le(c, 90)), add(c, 32), c)))]
def isfn(name, f):
    def m(ex, st, vs, node):
        c = ctype_arg(ex, st, vs[0], node)
        r = fresh_int(name)
        st.assume(z3.And(r >= 0, r < 65536))
        st.assume(Iff(ne(r, 0), f(c)))
        return [(st, r)]
    MODELS[name] = m
rng = lambda c, a, b: And(ge(c, ord(a)), le(c, ord(b)))
isfn('isdigit', lambda c: rng(c, '0', '9'))
isfn('isxdigit', lambda c: Or(rng(c, '0', '9'), rng(c, 'a', 'f'), rng(c, 'A', 'F')))
isfn('isalpha', lambda c: Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z')))
isfn('isalnum', lambda c: Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z'), rng(c, '0', '9')))
isfn('isupper', lambda c: rng(c, 'A', 'Z'))
isfn('islower', lambda c: rng(c, 'a', 'z'))
isfn('isspace', lambda c: Or(eq(c, 32), And(ge(c, 9), le(c, 13))))

@model('abs')
def m_abs(ex, st, vs, node):
    v = vs[0]
    ex.oblige(st, gt(v, -2**31), 'safe', 'abs: no overflow', node)
    return [(st, Ite(lt(v, 0), sub(0, v), v))]
@model('__builtin_expect')
def m_expect(ex, st, vs, node): return [(st, vs[0])]
@model('__builtin_unreachable')
def m_unreach(ex, st, vs, node):
    ex.oblige(st, False, 'safe', 'unreachable code is not reached', node)
    return []
@model('__assert_fail')
def m_assert(ex, st, vs, node):
    ex.oblige(st, False, 'safe', 'assertion holds', node)
    return []
@model('abort')
def m_abort(ex, st, vs, node):
    ex.oblige(st, False, 'safe', 'abort is not reached', node)
    return []
def ovf(op):
    def m(ex, st, vs, node):
        a, b, p = vs
        r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
        if not isinstance(p, OPtr): ex.unsupported('overflow builtin', node)
        t = ex.path_type(p)
        o = Not(And(le(t.lo, r), le(r, t.hi)))
        ex.store_lv(st, ('c', p.cell, p.path, t), ex.conv(st, r, t), node)
        return [(st, o)]
    return m
MODELS['__builtin_add_overflow'] = MODELS['__builtin_sadd_overflow'] = ovf('+')
MODELS['__builtin_sub_overflow'] = ovf('-')
MODELS['__builtin_mul_overflow'] = ovf('*')
