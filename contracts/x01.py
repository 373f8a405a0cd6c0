"""X01: packing and unpacking integers, for every value of every type, in both byte orders.
The macros are wrapped one by one into functions (harness/pack.c, preprocessed with /repo's headers on every run).  Contracts:
  PACK(dst, v)       calls strbuf_append_strview once, for dst, with a view of exactly the bytes of v in the named order
  UNPACK(d, view)    d is the value of the first sizeof(d) bytes; the view is advanced by strview_sub(view, sizeof(d), INT_MAX)
strbuf_append_strview and strview_sub are taken by their contracts (B03 and S06).  They are also
executed with the library's code in place, on buffers and views of the sizes listed (labelled bounded); that alone decides when a
macro does its work by any other function."""
import ctypes, os, random, sys, time, struct
from vf import bits, concrete, build
from vf.bits import Exec, fresh, norm, lst, Ptr, FnPtr, AT
from vf.bitcheck import Unit, decide, finish, harvest, replay as breplay
from vf.cast import TU, ParseError, CT
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TYPES = {'u8': (1, 0), 'i8': (1, 1), 'u16': (2, 0), 'i16': (2, 1), 'u32': (4, 0), 'i32': (4, 1), 'u64': (8, 0), 'i64': (8, 1)}
INT_MAX = 2**31 - 1
def flags(repo): return ['-I' + repo, '-I' + repo + '/accessories', '-I' + repo + '/test']
def tus(repo): return [TU(HERE + '/harness/pack.c', flags(repo)), TU(repo + '/strbuf.c', flags(repo)), TU(repo + '/strview.c', flags(repo))]

def order(b, be): return list(reversed(b)) if be else b
def setup(T, models):
    e = Exec(T[0], T[1:], models); e.frames.append({}); return e
SV = CT('struct', name='strview_t')
def view_of(e, agg):
    bs = agg[1]
    f = {n: (o, t) for n, o, t in e.layout(SV)}
    g = lambda n: e.from_bytes(bs[f[n][0]:f[n][0] + e.sizeof(f[n][1])], f[n][1])
    return g('data'), g('size')
def mkview(e, data, size):
    bs = [0] * e.sizeof(SV)
    for n, o, t in e.layout(SV):
        v = {'data': data, 'size': size}[n]
        bs[o:o + e.sizeof(t)] = e.to_bytes(v, t)
    return ('agg', bs)

def p_pack(T, name, be, tmp=''):
    """by the contract of strbuf_append_strview"""
    n, sg = TYPES[name]
    calls = []
    def append(e, a):
        d, z = view_of(e, a[1])
        if not bits.isc(z): raise bits.Unsupported('a view of unknown size')
        calls.append((a[0], e.rdb(d, e.sint(z, CT('int', 32, True))) if z else []))
        return mkview(e, 0, 0)
    e = setup(T, {'strbuf_append_strview': append})
    D = e.new('the buffer pointer', 8)
    v = fresh('value', 8 * n)
    e.call('pack_%s_%s%s' % ('be' if be else 'le', tmp, name), [D, v])
    if not calls: raise bits.Unsupported('no call of strbuf_append_strview')
    yield 'post', 'one append, to the destination', [c[0] for c in calls] == [D] * len(calls), repr(calls)
    got = [b for c in calls for b in c[1]]
    yield 'post', 'exactly %d bytes' % n, len(got) == n, ''
    want = order([norm(v[8 * k:8 * k + 8]) for k in range(n)], be)
    for k in range(n): yield 'post', 'byte %d' % k, k < len(got) and got[k] == want[k], ''

def p_unpack(T, name, be):
    """by the contract of strview_sub, for a view of any size that holds the value"""
    n, sg = TYPES[name]
    calls = []
    e = setup(T, {})
    data = [fresh('byte%d' % k, 8) for k in range(n)]
    M = e.new('text', INT_MAX); e.wrb(M, data)
    size = fresh('size', 32)
    rest = mkview(e, Ptr(M.o, n), fresh('rest', 32))
    def sub(e, a):
        d, z = view_of(e, a[0])
        calls.append((d, z, e.sint(a[1], CT('int', 32, True)), e.sint(a[2], CT('int', 32, True))))
        return rest
    e.models['strview_sub'] = sub
    W = e.new('the view', e.sizeof(SV), mkview(e, M, size)[1]); D = e.new('the destination', n)
    e.call('unpack_%s_%s' % ('be' if be else 'le', name), [D, W])
    if calls != [(M, size, n, INT_MAX)]: raise bits.Unsupported('another way of advancing the view')
    got = e.rdb(D, n); want = order(data, be)
    for k in range(n): yield 'post', 'byte %d of the value' % k, got[k] == want[k], ''
    yield 'post', 'the view is the rest', e.rdb(W, e.sizeof(SV)) == rest[1], ''
    yield 'post', 'the text is unchanged', e.rdb(M, n) == data, ''

# ---- with the library in place, within bounds
SIZES = [0, 1, 2, 3, 7, 8, 9, 100]
def header(e, size, cap):
    SB = CT('struct', name='strbuf_t'); lay = {n: (o, t) for n, o, t in e.layout(SB)}
    B = e.new('buffer', e.sizeof(SB) + cap + 1)
    e.wrb(B, [0] * e.sizeof(SB))
    for n, v in (('size', size), ('capacity', cap)): e.wrb(Ptr(B.o, lay[n][0]), e.to_bytes(v, lay[n][1]))
    return B, lay['cstr'][0], lay['size'][0]
def p_pack_in(T, name, be):
    n, sg = TYPES[name]
    for old in SIZES:
        bits.reset()
        e = setup(T, {})
        e.tu = T[1]
        B, c, so = header(e, old, old + n + 3)
        text = [fresh('old%d' % k, 8) for k in range(old)]
        e.wrb(Ptr(B.o, c), text + [0])
        e.tu = T[0]
        D = e.new('the buffer pointer', 8); e.wrb(D, [(B, i) for i in range(8)])
        v = fresh('value', 8 * n)
        e.call('pack_%s_%s' % ('be' if be else 'le', name), [D, v])
        want = order([norm(v[8 * k:8 * k + 8]) for k in range(n)], be)
        yield 'post', 'appended to %d bytes' % old, e.rdb(Ptr(B.o, so), 4) == [old + n, 0, 0, 0] and e.rdb(Ptr(B.o, c), old + n + 1) == text + want + [0], ''
def p_unpack_in(T, name, be):
    n, sg = TYPES[name]
    for more in SIZES + [1000, INT_MAX - n]:
        bits.reset()
        e = setup(T, {})
        data = [fresh('byte%d' % k, 8) for k in range(n)]
        M = e.new('text', n + more); e.wrb(M, data)
        W = e.new('the view', e.sizeof(SV), mkview(e, M, n + more)[1]); D = e.new('the destination', n)
        e.call('unpack_%s_%s' % ('be' if be else 'le', name), [D, W])
        d, z = view_of(e, ('agg', e.rdb(W, e.sizeof(SV))))
        yield 'post', 'the value, %d bytes following' % more, e.rdb(D, n) == order(data, be), ''
        yield 'post', 'the view is the rest of %d bytes' % more, z == more and (not more or d == Ptr(M.o, n)), ''
def p_conv(T, name, k, be):
    n, sg = TYPES[name]
    e = setup(T, {}); v = fresh('value', 8 * n)
    r = e.call('conv_%s_%s_%s' % (k, 'be' if be else 'le', name), [v])
    w = [b for q in order(range(n), be) for b in v[8 * q:8 * q + 8]]
    yield 'post', 'the bytes in the named order', lst(r, 8 * n) == w, ''

class Runner:
    c = None
    def __init__(s, lib, d, seed):
        s.lib = ctypes.CDLL(lib); s.d = d; s.seed = seed
    def case(s, i):
        r = random.Random('%d/%d' % (s.seed, i))
        name = r.choice(list(TYPES)); n = TYPES[name][0]
        b = bytes(r.choice((0, 255, 128, 127, r.randrange(256), r.randrange(256), r.choice(s.d.chars))) for _ in range(n))
        return {'type': name, 'be': r.randrange(2), 'bytes': b, 'old': r.choice(SIZES), 'more': r.choice(SIZES + [100, 200, 300, 5000])}
    def attempt(s, case, prop):
        name, be, b = case['type'], case['be'], case['bytes']; n, sg = TYPES[name]
        v = int.from_bytes(b, 'big' if be else 'little', signed=bool(sg))
        ct = {1: ctypes.c_int8, 2: ctypes.c_int16, 4: ctypes.c_int32, 8: ctypes.c_int64}[n] if sg else {1: ctypes.c_uint8, 2: ctypes.c_uint16, 4: ctypes.c_uint32, 8: ctypes.c_uint64}[n]
        o = 'be' if be else 'le'; bad = []
        old = case['old']; cap = old + n + 3
        a = concrete.arena('buf', 2).place(24 + cap + 1, True, 8)
        concrete.poke(a, struct.pack('<iiQQ', old, cap, 0, 0) + bytes((7 * i + 1) & 255 for i in range(old)) + b'\0')
        p = ctypes.c_void_p(a)
        getattr(s.lib, 'pack_%s_%s' % (o, name))(ctypes.byref(p), ct(v))
        size = struct.unpack('<i', concrete.peek(a, 4))[0]
        if size != old + n or concrete.peek(a + 24, old + n + 1) != bytes((7 * i + 1) & 255 for i in range(old)) + b + b'\0': bad.append('exactly the bytes of the value are appended')
        t = b + bytes(case['more']); m = concrete.arena('text', 2).place(len(t), True); concrete.poke(m, t)
        w = concrete.CView(m, len(t)); d = ct(0)
        getattr(s.lib, 'unpack_%s_%s' % (o, name))(ctypes.byref(d), ctypes.byref(w))
        if d.value != v: bad.append('the value of the bytes')
        if w.size != case['more'] or w.size and w.data != m + n: bad.append('the view is advanced by the size of the type')
        return ('post', bad, {'value': v, 'unpacked': d.value, 'size': size, 'view': [w.data and w.data - m, w.size]}) if bad else None
def runner(repo, scratch, seed):
    out = scratch + '/libpack.so'
    if not os.path.exists(out): build.compile_lib(repo, out, [HERE + '/harness/pack.c', 'strbuf.c', 'strview.c', 'test/prnf.c'], flags(repo))
    d = harvest(tus(repo)[:1])
    return lambda: Runner(out, d, seed)

def main(a, prop, seed):
    check = sys.modules['__main__']
    t0 = time.time()
    try: T = tus(a.repo)
    except (ParseError, FileNotFoundError) as e: print('cannot read the sources:', e); return 2
    units = []; more = []
    for name in TYPES:
        for be in (0, 1):
            o = 'BE' if be else 'LE'
            for k, p, q in (('STRBUF_PACK_', p_pack, p_pack_in), ('STRVIEW_UNPACK_', p_unpack, p_unpack_in)):
                nm = '%s%s of %s' % (k, o, name)
                units.append(Unit(nm, lambda name=name, be=be, p=p: p(T, name, be), runner))
                more.append(Unit(nm + ', library in place', lambda name=name, be=be, q=q: q(T, name, be), runner, bounded='content of %s bytes before, views of these sizes more than the type; all values' % SIZES))
            units.append(Unit('STRBUF_PACK_%s of a variable tmp, %s' % (o, name), lambda name=name, be=be: p_pack(T, name, be, 'tmp_'), runner))
            for k in ('pack', 'unpack'): units.append(Unit('xendian_%s_%s of %s' % (k, o, name), lambda name=name, be=be, k=k: p_conv(T, name, k, be), runner))
    res = decide(units + more, 60, check)
    bad = lambda u: res[u.name]['error'] or any(not o[3] for o in res[u.name]['obls'])
    for u in units:
        # another way of appending or of advancing the view: the runs with the library in place decide, within their bounds
        if res[u.name]['error'] and u.name.startswith('STR') and not any(not o[3] for o in res[u.name]['obls']): u.must = False
    units += more
    return finish(a, prop, seed, units, res, t0, ['contracts of strbuf_append_strview (B03) and strview_sub (S06)', 'little-endian host (the byte order of the compiler)'], check)

def replay(a, f):
    return breplay(a, f, runner, sys.modules['__main__'])
