"""X02: the block cipher of the accessories is AES-256 (FIPS-197) and its decryption inverts it.
Contracts, for all keys, all round keys and all blocks:
  aes256_init(key, ctx)   ctx holds the key expansion of key; key unchanged; nothing else written
  aes256_enc(b, ctx)      b is the cipher (14 rounds) of b under the round keys in ctx; ctx unchanged
  aes256_dec(b, ctx)      b is the inverse cipher of b under the round keys in ctx; ctx unchanged
  lemma                   the inverse cipher undoes the cipher
The functions they call are executed in place, whatever they are.  When a contract of one of the three functions fails (another
layout of the round keys, say), the property is still decided by their compositions."""
import glob, ctypes, os, random, sys
from vf import bits, aes, concrete, build
from vf.bits import Exec, fresh
from vf.bitcheck import Unit, decide, finish, harvest, replay as breplay
from vf.cast import TU, ParseError
import time

def sources(repo):
    D = repo + '/accessories/strbuf_crypt'
    return sorted(glob.glob(D + '/aes/*.c')), ['-I' + repo, '-I' + D, '-I' + D + '/aes']
def tus(repo):
    src, inc = sources(repo)
    return [TU(f, inc) for f in src]

def by(name, n): return [fresh('%s[%d]' % (name, i), 8) for i in range(n)]
def differ(got, want):
    return 'differs at byte %s' % [i for i, (p, q) in enumerate(zip(got, want)) if p != q][:16]

def setup(T):
    e = Exec(T[0], T[1:]); e.frames.append({}); return e
def p_init(T):
    e = setup(T); key = by('key', 32)
    K, C = e.new('key', 32, key), e.new('ctx', 240)
    e.call('aes256_init', [K, C])
    got, want = e.mem.r(C.o), aes.expand(key)
    got = [got.get(i) for i in range(240)]
    for r in range(15): yield 'post', 'round key %d is that of the key expansion' % r, got[16 * r:16 * r + 16] == want[16 * r:16 * r + 16], differ(got, want)
    yield 'post', 'the key is unchanged', e.rdb(K, 32) == key, ''
def p_enc(T):
    e = setup(T); ks, b = by('ks', 240), by('block', 16)
    B, C = e.new('block', 16, b), e.new('ctx', 240, ks)
    e.call('aes256_enc', [B, C])
    got, want = e.rdb(B, 16), aes.encrypt(b, ks)
    for i in range(16): yield 'post', 'byte %d of the block is that of the cipher' % i, got[i] == want[i], ''
    yield 'post', 'the round keys are unchanged', e.rdb(C, 240) == ks, ''
def p_dec(T):
    e = setup(T); ks, b = by('ks', 240), by('block', 16)
    B, C = e.new('block', 16, b), e.new('ctx', 240, ks)
    e.call('aes256_dec', [B, C])
    got, want = e.rdb(B, 16), aes.decrypt(b, ks)
    for i in range(16): yield 'post', 'byte %d of the block is that of the inverse cipher' % i, got[i] == want[i], ''
    yield 'post', 'the round keys are unchanged', e.rdb(C, 240) == ks, ''
def p_lemma(T):
    ks, b = by('ks', 240), by('block', 16)
    yield 'post', 'the inverse cipher undoes the cipher', aes.decrypt(aes.encrypt(b, ks), ks) == b, ''
    for x in range(256): yield 'post', 'the substitution of %d is undone' % x, bits.INVS[bits.SBOX[x]] == x, ''
def p_all(T):
    e = setup(T); key, b = by('key', 32), by('block', 16)
    K, C, B = e.new('key', 32, key), e.new('ctx', 240), e.new('block', 16, b)
    e.call('aes256_init', [K, C]); e.call('aes256_enc', [B, C])
    yield 'post', 'encrypting a block with a key gives AES-256', e.rdb(B, 16) == aes.encrypt(b, aes.expand(key)), ''
    e.call('aes256_dec', [B, C])
    yield 'post', 'decrypting restores the block', e.rdb(B, 16) == b, ''
    e.wrb(B, b); e.call('aes256_dec', [B, C])
    yield 'post', 'decrypting a block is the inverse of AES-256', e.rdb(B, 16) == aes.decrypt(b, aes.expand(key)), ''
    yield 'post', 'the key is unchanged', e.rdb(K, 32) == key, ''

class Runner:
    """random and dictionary keys and blocks on the compiled code, against FIPS-197"""
    c = None
    def __init__(s, lib, d, seed): s.lib = ctypes.CDLL(lib); s.d = d; s.seed = seed
    def case(s, i):
        r = random.Random('%d/%d' % (s.seed, i))
        def some(n):
            x = r.random()
            if x < .1: return bytes([r.choice((0, 255, 1, 128))]) * n
            b = bytearray(r.randbytes(n))
            if x < .5:
                for _ in range(r.randrange(1, 6)): b[r.randrange(n)] = r.choice((0, 1, 0x80, 0x63, 0x1b, 255, r.choice(s.d.chars), abs(r.choice(s.d.ints)) & 255))
            elif x < .6: b = bytearray(b[:1] * n)
            return bytes(b)
        return {'key': some(32), 'block': some(16)}
    def attempt(s, case, prop):
        key, block = case['key'], case['block']
        ar = lambda nm, b: (lambda a: (concrete.poke(a, b), a)[1])(concrete.arena(nm, 2).place(len(b), True))
        K, B, C = ar('key', key), ar('block', block), ar('ctx', bytes(240))
        v = ctypes.c_void_p
        s.lib.aes256_init(v(K), v(C)); ks = aes.expand(list(key))
        s.lib.aes256_enc(v(B), v(C)); got = concrete.peek(B, 16)
        bad = []
        if got != bytes(aes.encrypt(list(block), ks)): bad.append('encrypting a block with a key gives AES-256')
        s.lib.aes256_dec(v(B), v(C)); back = concrete.peek(B, 16)
        if back != block: bad.append('decrypting restores the block')
        concrete.poke(B, block); s.lib.aes256_dec(v(B), v(C)); inv = concrete.peek(B, 16)
        if inv != bytes(aes.decrypt(list(block), ks)): bad.append('decrypting a block is the inverse of AES-256')
        if concrete.peek(K, 32) != key: bad.append('the key is unchanged')
        return ('post', bad, {'encrypted': got.hex(), 'expected': bytes(aes.encrypt(list(block), ks)).hex(), 'decrypted': back.hex()}) if bad else None

def runner(repo, scratch, seed):
    src, inc = sources(repo)
    out = scratch + '/libaes.so'
    if not os.path.exists(out): build.compile_lib(repo, out, src, inc)
    d = harvest(tus(repo))
    return lambda: Runner(out, d, seed)

def main(a, prop, seed):
    check = sys.modules['__main__']
    t0 = time.time()
    # the specification itself, on the example of FIPS-197 C.3
    if bytes(aes.encrypt([17 * i for i in range(16)], aes.expand(list(range(32))))).hex() != '8ea2b7ca516745bfeafc49904b496089': print('the specification of AES-256 is wrong'); return 2
    try: T = tus(a.repo)
    except (ParseError, FileNotFoundError) as e: print('cannot read the sources:', e); return 2
    fns = {n for t in T for n in t.funcs}
    units = [Unit(n, lambda p=p: p(T), runner) for n, p in (('aes256_init', p_init), ('aes256_enc', p_enc), ('aes256_dec', p_dec), ('lemma: decryption inverts encryption', p_lemma)) ]
    res = decide(units, 300, check)
    if any(v['error'] or any(not o[3] for o in v['obls']) for v in res.values()):
        for u in units: u.must = False
        units.append(Unit('aes256_init, aes256_enc and aes256_dec together', lambda: p_all(T), runner))
        res.update(decide(units[-1:], 300, check))
    src = [t.path.replace(a.repo + '/', '') for t in T]
    return finish(a, prop, seed, units, res, t0, ['FIPS-197 as written down in vf/aes.py (checked against its appendix C.3)'], check, extra=dict(sources=src))

def replay(a, f):
    return breplay(a, f, runner, sys.modules['__main__'])
