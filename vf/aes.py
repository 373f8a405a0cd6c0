"""FIPS-197 with a 256-bit key, over bytes of bits (or known bytes)."""
from . import bits
from .bits import norm, lst, sub_byte, inv_sub_byte
def x(*bs):
    if all(isinstance(b, int) for b in bs):
        r = 0
        for b in bs: r ^= b
        return r
    L = [lst(b, 8) for b in bs]
    out = L[0]
    for m in L[1:]: out = [p ^ q for p, q in zip(out, m)]
    return norm(out)
def xtime(b):
    if isinstance(b, int): return (b << 1 & 255) ^ (0x1b if b & 128 else 0)
    L = lst(b, 8); h = L[7]; r = [0] + L[:7]
    return norm([f ^ (h if 0x1b >> k & 1 else 0) for k, f in enumerate(r)])
def gm(c, b):
    """c times b in GF(2^8), c known"""
    r = 0; p = b
    while c:
        if c & 1: r = x(r, p)
        p = xtime(p); c >>= 1
    return r
def expand(key):
    """KeyExpansion, Nk = 8, Nr = 14: 240 bytes"""
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rcon = 1
    for i in range(8, 60):
        t = w[i - 1]
        if i % 8 == 0:
            t = [sub_byte(b) for b in t[1:] + t[:1]]; t[0] = x(t[0], rcon); rcon = xtime(rcon)
        elif i % 8 == 4: t = [sub_byte(b) for b in t]
        w.append([x(a, b) for a, b in zip(w[i - 8], t)])
    return [b for q in w for b in q]
def addkey(st, ks, r): return [x(a, b) for a, b in zip(st, ks[16 * r:16 * r + 16])]
def shift_rows(st): return [st[(4 * (c + r) + r) % 16] for c in range(4) for r in range(4)]
def inv_shift_rows(st): return [st[(4 * ((c - r) % 4) + r)] for c in range(4) for r in range(4)]
def mix(st, m):
    out = []
    for c in range(4):
        col = st[4 * c:4 * c + 4]
        out += [x(*[gm(m[(k - r) % 4], col[k]) for k in range(4)]) for r in range(4)]
    return out
def encrypt(st, ks):
    st = addkey(st, ks, 0)
    for r in range(1, 15):
        st = shift_rows([sub_byte(b) for b in st])
        if r < 14: st = mix(st, (2, 3, 1, 1))
        st = addkey(st, ks, r)
    return st
def decrypt(st, ks):
    st = addkey(st, ks, 14)
    for r in range(13, -1, -1):
        st = addkey([inv_sub_byte(b) for b in inv_shift_rows(st)], ks, r)
        if r: st = mix(st, (14, 11, 13, 9))
    return st
def _selftest():
    k = list(range(32)); p = [0x11 * i for i in range(16)]      # FIPS-197 appendix C.3
    c = encrypt(p, expand(k))
    assert bytes(c).hex() == '8ea2b7ca516745bfeafc49904b496089' and decrypt(c, expand(k)) == p
_selftest()
