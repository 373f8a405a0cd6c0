"""X03: strbuf_encrypt / strbuf_decrypt are CBC with PKCS#7 padding.
The real functions are executed with the library's code in place; the block cipher is taken by its contract (X02: aes256_init,
aes256_enc and aes256_dec, E and D with D(E(x)) = x and E(D(x)) = x) when that contract holds, and executed in place otherwise.
Contents, key and vector are arbitrary (symbolic); the sizes of content and capacity are those listed: bounded."""
import ctypes, hashlib, os, random, sys, time, struct, glob
from vf import bits, aes, concrete, build
from vf.bits import Exec, fresh, norm, lst, Ptr, FnPtr, AT
from vf.bitcheck import Unit, decide, finish, harvest, replay as breplay
from vf.cast import TU, ParseError, CT
from contracts import x02
INT32 = CT('int', 32, True)
def flags(repo): D = repo + '/accessories/strbuf_crypt'; return ['-I' + repo, '-I' + D, '-I' + D + '/aes', '-I' + repo + '/test']
def tus(repo):
    return [TU(repo + '/accessories/strbuf_crypt/strbuf_crypt.c', flags(repo)), TU(repo + '/strbuf.c', flags(repo)), TU(repo + '/strview.c', flags(repo))] + x02.tus(repo)

# ---- the block cipher by its contract
def blk(bs): return tuple(f for b in bs for f in lst(b, 8))
def unblk(fs): return [norm(list(fs[8 * i:8 * i + 8])) for i in range(16)]
def intern(x):
    """a small number for a tuple of bits (powers of two hash badly)"""
    m = bits.AT.memo.setdefault('interned', {}); k = (tuple(f.bit_length() for f in x), x)
    if k not in m: m[k] = len(m); bits.AT.memo.setdefault('terms', []).append(x)
    return m[k]
def E_(key, b, kind='E'):
    """the block cipher under key, and its inverse"""
    if all(isinstance(v, int) for v in b):      # known contents: a fixed permutation
        m = bits.AT.memo.setdefault('perm', {}); k = (kind, key, bytes(b))
        if k not in m:
            y = hashlib.sha256(repr(k).encode()).digest()[:16]
            m[k] = y; m[('D' if kind == 'E' else 'E', key, y)] = bytes(b)
        return list(m[k])
    x = blk(b); other = 'D' if kind == 'E' else 'E'
    inf = [bits.AT.info.get(f.bit_length() - 1) if f > 1 and f & (f - 1) == 0 else None for f in x]
    if inf[0] and inf[0][0][0] == other and inf[0][0][1] == key and all(i and i[0] == inf[0][0] and i[1] == k for k, i in enumerate(inf)): return unblk(bits.AT.memo['terms'][inf[0][0][2]])
    return unblk(bits.AT.keyed((kind, key, intern(x)), 128))
def m_init(e, a):
    key = intern(blk(e.rdb(a[0], 16)) + blk(e.rdb(Ptr(a[0].o, a[0].off + 16), 16)))
    e.wrb(a[1], [norm(list(bits.AT.keyed(('ks', key, i), 8))) for i in range(240)])
def ctxkey(e, p):
    b = e.rdb(p, 240)
    if isinstance(b[0], int): raise bits.Unsupported('round keys')
    k = bits.AT.info[lst(b[0], 8)[0].bit_length() - 1][0][1]
    if b != [norm(list(bits.AT.keyed(('ks', k, i), 8))) for i in range(240)]: raise bits.Unsupported('round keys')
    return k
def m_enc(e, a): e.wrb(a[0], E_(ctxkey(e, a[1]), e.rdb(a[0], 16)))
def m_dec(e, a): e.wrb(a[0], E_(ctxkey(e, a[1]), e.rdb(a[0], 16), 'D'))
ABSTRACT = {'aes256_init': m_init, 'aes256_enc': m_enc, 'aes256_dec': m_dec}

# ---- the specification
def cbc(key, iv, text, enc):
    out = []; prev = iv
    for i in range(0, len(text), 16):
        prev = enc(key, [aes.x(p, q) for p, q in zip(text[i:i + 16], prev)]); out += prev
    return out
def pad(text):
    n = 16 - len(text) % 16
    return text + [n] * n

class World:
    """a buffer of the kind asked for, key and vector"""
    def __init__(w, T, abstract, cap, content, dyn, iv=None):
        e = w.e = Exec(T[1], T, dict(ABSTRACT) if abstract else {}); e.frames.append({})
        w.T = T; w.dyn = dyn; w.live = set(); w.abstract = abstract; w.cap = cap
        w.SB = CT('struct', name='strbuf_t'); w.lay = {n: (o, t) for n, o, t in e.layout(w.SB)}; w.hs = w.lay['cstr'][0]
        w.AL = w.lay['allocator'][1]; w.al = {n: (o, t) for n, o, t in e.layout(w.AL)}
        w.app = e.new('application data', 8)
        B = w.new(cap)
        w.B0 = B
        e.models['harness_allocator'] = w.allocate
        e.wrb(B, [0] * w.hs)
        w.set(B, 'size', len(content)); w.set(B, 'capacity', cap)
        if dyn:
            o = w.lay['allocator'][0]
            e.wrb(Ptr(B.o, o + w.al['app_data'][0]), [(w.app, i) for i in range(8)])
            e.wrb(Ptr(B.o, o + w.al['allocator'][0]), [(FnPtr('harness_allocator'), i) for i in range(8)])
        e.wrb(Ptr(B.o, w.hs), content + [0])
        w.D = e.new('buffer pointer', 8); e.wrb(w.D, [(B, i) for i in range(8)])
        w.key, w.iv = x02.by('key', 32), iv or x02.by('iv', 16)
        w.K, w.V = e.new('key', 32, w.key), e.new('iv', 16, w.iv)
        w.bkey = intern(blk(w.key[:16]) + blk(w.key[16:]))
        if abstract: w.enc = lambda k, b: E_(w.bkey, b); w.dec = lambda k, b: E_(w.bkey, b, 'D')
        else: ks = aes.expand(w.key); w.enc = lambda k, b: aes.encrypt(b, ks); w.dec = lambda k, b: aes.decrypt(b, ks)
    def new(w, cap):
        p = w.e.new('buffer', w.hs + cap + 1)
        w.live.add(p.o); return p
    def allocate(w, e, a):
        this, p, n = a
        n = e.sint(n, CT('int', 64, False))
        if n > 1 << 40: e.fault('allocation of %d bytes' % n)
        if p != 0:
            if not isinstance(p, Ptr) or p.off or p.o not in w.live: e.fault('release of something not allocated: %r' % (p,))
        if n == 0:
            if p != 0: w.live.discard(p.o); e.mem.dead.add(p.o)
            return 0
        q = e.new('allocated', n); w.live.add(q.o)
        if p != 0:
            k = min(n, e.objs[p.o].size); d = e.mem.r(p.o)
            dst = e.mem.w(q.o)
            for i in range(k):
                if i in d: dst[i] = d[i]
            w.live.discard(p.o); e.mem.dead.add(p.o)
        return q
    def set(w, B, f, v): o, t = w.lay[f]; w.e.wrb(Ptr(B.o, o), w.e.to_bytes(v, t))
    def get(w, B, f): o, t = w.lay[f]; return w.e.sint(w.e.load(Ptr(B.o, o), t), t)
    def call(w, name):
        e = w.e; r = e.call(name, [w.D, w.K, w.V])
        e.tu = w.T[1]
        bs = r[1]; f = {n: (o, t) for n, o, t in e.layout(CT('struct', name='strview_t'))}
        g = lambda n: e.from_bytes(bs[f[n][0]:f[n][0] + e.sizeof(f[n][1])], f[n][1])
        return g('data'), e.sint(g('size'), INT32)
    def buf(w): return w.e.load(w.D, CT('ptr', 64, to=w.SB))
    def content(w, B, n): return w.e.rdb(Ptr(B.o, w.hs), n)
    def sound(w, B):
        """what holds of the buffer after any call"""
        e = w.e; size, cap = w.get(B, 'size'), w.get(B, 'capacity')
        al = e.rdb(Ptr(B.o, w.lay['allocator'][0]), e.sizeof(w.AL))
        yield 'post', 'a valid buffer', isinstance(B, Ptr) and 0 <= size <= cap and e.objs[B.o].size >= w.hs + cap + 1 and w.content(B, size + 1)[size] == 0, (size, cap)
        yield 'post', 'the allocator is kept', al == (e.rdb(Ptr(B.o, w.lay['allocator'][0]), e.sizeof(w.AL))) and (not w.dyn or al[w.al['allocator'][0]] == (FnPtr('harness_allocator'), 0)), ''
        yield 'post', 'capacity', cap >= w.cap if w.dyn else cap == w.cap and B == w.B0, cap
        yield 'post', 'key and vector are unchanged', e.rdb(w.K, 32) == w.key and e.rdb(w.V, 16) == w.iv, ''
        yield 'post', 'every other block is released', w.live == {B.o}, w.live

def failed(w, r, B):
    yield 'post', 'the result is invalid', r == (0, 0), r
    yield 'post', 'the buffer is empty', w.get(B, 'size') == 0, ''
    yield from w.sound(B)
def good(w, r, B, want):
    n = len(want)
    yield 'post', 'the size', w.get(B, 'size') == n, (w.get(B, 'size'), n)
    if w.get(B, 'size') == n: yield 'post', 'the content', w.content(B, n) == want, ''
    yield 'post', 'the result is a view of the buffer', r == (Ptr(B.o, w.hs), n), r
    yield from w.sound(B)

def p_encrypt(T, ab, n, dyn):
    full = (n // 16 + 1) * 16
    caps = [n, full] if dyn else sorted({n, full - 1, full, full + 5})
    for cap in caps:
        bits.reset()
        r_ = random.Random(n); known = n > 5000
        text = [r_.randrange(256) for _ in range(n)] if known else x02.by('text', n)
        w = World(T, ab, cap, text, dyn, [r_.randrange(256) for _ in range(16)] if known else None)
        r = w.call('strbuf_encrypt'); B = w.buf()
        if cap < full and not dyn: yield from failed(w, r, B); continue
        c = cbc(w.bkey, w.iv, pad(text), w.enc)
        yield from good(w, r, B, c)
        r = w.call('strbuf_decrypt'); B = w.buf()
        yield from good(w, r, B, text)
def p_decrypt(T, ab, n, dyn, pads):
    for cap in (n, n + 20):
        if n % 16 or n == 0:
            bits.reset()
            w = World(T, ab, cap, x02.by('text', n), dyn)
            r = w.call('strbuf_decrypt'); yield from failed(w, r, w.buf()); continue
        for last in pads if cap == n else pads[:1]:
            # every cipher text is the encryption of some text; the last byte of that decides
            bits.reset()
            w = World(T, ab, cap, [0] * n, dyn)
            c = x02.by('cipher', n - 16)
            prev = c[-16:] if n > 16 else w.iv
            P = x02.by('last', 15) + [last]
            c = c + w.enc(w.bkey, [aes.x(p, q) for p, q in zip(P, prev)])
            w.e.wrb(Ptr(w.B0.o, w.hs), c)
            r = w.call('strbuf_decrypt'); B = w.buf()
            if not 1 <= last <= 16: yield from failed(w, r, B); continue
            text = []; pv = w.iv
            for i in range(0, n - 16, 16):
                text += [aes.x(p, q) for p, q in zip(w.dec(w.bkey, c[i:i + 16]), pv)]; pv = c[i:i + 16]
            yield from good(w, r, B, (text + P)[:n - last])
def p_null(T, ab):
    for f in ('strbuf_encrypt', 'strbuf_decrypt'):
        for null in (0, 1):
            bits.reset()
            w = World(T, ab, 8, [65, 66], False)
            if null: w.D = 0
            else: w.e.wrb(w.D, [0] * 8)
            yield 'post', '%s without a buffer gives an invalid view' % f, w.call(f) == (0, 0), ''

class Runner:
    c = None
    def __init__(s, lib, d, seed):
        s.lib = ctypes.CDLL(lib); s.d = d; s.seed = seed
        for f in ('strbuf_encrypt', 'strbuf_decrypt'): getattr(s.lib, f).restype = concrete.CView
    def case(s, i):
        r = random.Random('%d/%d' % (s.seed, i))
        n = r.choice((r.randrange(0, 70), r.randrange(0, 70), r.randrange(0, 600), r.choice((15, 16, 17, 255, 256, 4095, 4096))))
        if r.random() < .25: n = n // 16 * 16
        x = r.random()
        some = lambda k: bytes(r.choice((0, 255, r.randrange(256), r.choice(s.d.chars))) for _ in range(k)) if r.random() < .5 else r.randbytes(k)
        return {'op': 'encrypt' if x < .5 else 'decrypt' if x < .7 else 'crafted', 'text': some(n), 'key': some(32), 'iv': some(16), 'dyn': r.random() < .5, 'spare': r.choice((0, 1, 15, 16, 17, 40, 16 - n % 16, 15 - n % 16)), 'last': r.choice((0, 1, 2, 15, 16, 17, 18, 32, 128, 255, r.randrange(256)))}
    def attempt(s, case, prop):
        lib = s.lib; text, key, iv = case['text'], case['key'], case['iv']; n = len(text); bad = []
        ks = aes.expand(list(key)); enc = lambda k, b: aes.encrypt(b, ks)
        if case['op'] == 'crafted':
            text = text[:max(0, n // 16 * 16 - 1)]
            if not text: return None
            text = bytes(cbc(None, list(iv), list(text[:len(text) // 16 * 16 + 15]) + [case['last']], enc)); n = len(text)
        full = (n // 16 + 1) * 16; cap = n + case['spare']
        K = concrete.arena('k', 2).place(32, True); concrete.poke(K, key)
        I = concrete.arena('i', 2).place(16, True); concrete.poke(I, iv)
        FT = ctypes.CFUNCTYPE(ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t)
        blocks = {}; k_ = [0]
        def fresh_block(sz):
            k_[0] += 1
            a = concrete.arena('b%d' % (k_[0] % 6), 4).place(sz, True, 8); blocks[a] = sz; concrete.poke(a, b'\xa5' * sz); return a
        def alloc(this, p, sz):
            if not sz:
                if p: blocks.pop(p, None) or bad.append('released something not allocated')
                return None
            q = fresh_block(sz)
            if p:
                o = blocks.pop(p, 0); concrete.poke(q, concrete.peek(p, min(o, sz)))
            return q
        cb = FT(alloc) if case['dyn'] else None
        a = fresh_block(24 + cap + 1)
        concrete.poke(a, struct.pack('<iiQQ', n, cap, 0, ctypes.cast(cb, ctypes.c_void_p).value if cb else 0) + text + b'\0')
        p = ctypes.c_void_p(a)
        vp = ctypes.c_void_p
        def look(r):
            b = p.value; sz, cp = struct.unpack('<ii', concrete.peek(b, 8))
            if not 0 <= sz <= cp or not cb and (b != a or cp != cap): bad.append('a valid buffer'); return None, False
            t = concrete.peek(b + 24, sz + 1)
            if t[-1]: bad.append('terminated')
            return t[:-1], bool(r.data) and r.data == b + 24 and r.size == sz
        def expect(r, want, what):
            t, ok = look(r)
            if want is None:
                if r.data or r.size or t: bad.append(what + ': refused with an empty buffer')
            elif t != want or not ok: bad.append(what + ': the content')
        if case['op'] == 'encrypt':
            want = bytes(cbc(None, list(iv), pad(list(text)), enc))
            r = lib.strbuf_encrypt(ctypes.byref(p), vp(K), vp(I))
            if not cb and cap < full: expect(r, None, 'encrypt')
            else:
                expect(r, want, 'encrypt')
                expect(lib.strbuf_decrypt(ctypes.byref(p), vp(K), vp(I)), text, 'decrypt')
        else:
            want = None
            if n and n % 16 == 0:
                pt = b''; pv = iv
                for i in range(0, n, 16): pt += bytes(q ^ w for q, w in zip(aes.decrypt(list(text[i:i + 16]), ks), pv)); pv = text[i:i + 16]
                if 1 <= pt[-1] <= 16: want = pt[:-pt[-1]]
            expect(lib.strbuf_decrypt(ctypes.byref(p), vp(K), vp(I)), want, 'decrypt')
        if concrete.peek(K, 32) != key or concrete.peek(I, 16) != iv: bad.append('key and vector are unchanged')
        if list(blocks) != [p.value]: bad.append('every other block is released')
        return ('post', sorted(set(bad)), {'size': n, 'capacity': cap}) if bad else None
def runner(repo, scratch, seed):
    out = scratch + '/libcrypt.so'
    if not os.path.exists(out): build.compile_lib(repo, out, ['accessories/strbuf_crypt/strbuf_crypt.c', 'strbuf.c', 'strview.c', 'test/prnf.c'] + x02.sources(repo)[0], flags(repo))
    d = harvest(tus(repo)[:1])
    return lambda: Runner(out, d, seed)

def main(a, prop, seed):
    check = sys.modules['__main__']
    t0 = time.time()
    try: T = tus(a.repo)
    except (ParseError, FileNotFoundError) as e: print('cannot read the sources:', e); return 2
    A = T[3:]
    base = [Unit(n, lambda p=p: p(A)) for n, p in (('aes256_init', x02.p_init), ('aes256_enc', x02.p_enc), ('aes256_dec', x02.p_dec), ('decryption of a block inverts encryption', x02.p_lemma))]
    r0 = decide(base, 200, check)
    ab = all(not v['error'] and all(o[3] for o in v['obls']) for v in r0.values())
    thorough = a.tier == 'thorough'
    def build_units(ab):
        small = list(range(0, 50)) if ab else [0, 1, 15, 16, 17, 32]
        big = [63, 64, 65, 79, 80, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 4079, 4080, 4095, 4096, 4097] + ([32767, 32768, 65520, 65535, 65536, 65537, 100000] if thorough else [65519, 65535, 65536]) if ab else [65]
        if thorough and ab: small = list(range(0, 400))
        units = []
        def bound(s): return 'content and capacity of the sizes named; ' + ('one content and vector' if s[0] > 5000 else 'all contents, keys and vectors')
        for lo in range(0, len(small), 10):
            ns = small[lo:lo + 10]
            for dyn in (False, True):
                units.append(Unit('strbuf_encrypt then strbuf_decrypt, %s buffer, sizes %s' % ('dynamic' if dyn else 'fixed', ns), lambda ns=ns, dyn=dyn: (o for n in ns for o in p_encrypt(T, ab, n, dyn)), runner, bounded=bound(ns)))
                units.append(Unit('strbuf_decrypt of anything, %s buffer, sizes %s' % ('dynamic' if dyn else 'fixed', ns), lambda ns=ns, dyn=dyn: (o for n in ns for o in p_decrypt(T, ab, n, dyn, range(256) if ab else (0, 1, 7, 16, 17, 255))), runner, bounded=bound(ns)))
        for n in big:
            for dyn in (False, True):
                units.append(Unit('strbuf_encrypt then strbuf_decrypt, %s buffer, size %d' % ('dynamic' if dyn else 'fixed', n), lambda n=n, dyn=dyn: p_encrypt(T, ab, n, dyn), runner, bounded=bound([n])))
                if n < 5000: units.append(Unit('strbuf_decrypt of anything, %s buffer, size %d' % ('dynamic' if dyn else 'fixed', n), lambda n=n, dyn=dyn: p_decrypt(T, ab, n, dyn, (0, 1, 15, 16, 17, 255)), runner, bounded=bound([n])))
        units.append(Unit('no buffer', lambda: p_null(T, ab), runner, bounded='the two ways of passing none'))
        return sorted(units, key=lambda u: -(int(u.name.split()[-1]) if u.name.split()[-1].isdigit() else 0))
    units = build_units(ab)
    res = decide(units, 300 if not thorough else 2000, check)
    if ab and all(v['error'] for u, v in res.items() if u != 'no buffer') and not any(not o[3] for v in res.values() for o in v['obls']):
        # the block cipher is not used through the functions under contract
        units = build_units(False); res = decide(units, 300, check)
    res.update(r0)
    for u in base: u.must = False
    return finish(a, prop, seed, base + units, res, t0, [], check, level='other' , extra=dict(explanation='The block cipher is under unbounded contracts (X02). The mode of operation, padding and buffer handling are executed symbolically for all contents, keys and vectors at the listed sizes: bounded, not counted as proved.', block_cipher='by contract' if ab else 'in place'))

def replay(a, f):
    return breplay(a, f, runner, sys.modules['__main__'])
