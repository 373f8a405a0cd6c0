"""Replay of strnum obligations: number-like texts, typed destinations."""
import ctypes, re
from fractions import Fraction
from .concrete import *
from . import concrete

NUM = {'uchar': ctypes.c_ubyte, 'schar': ctypes.c_byte, 'ushort': ctypes.c_ushort, 'short': ctypes.c_short, 'uint': ctypes.c_uint, 'int': ctypes.c_int, 'ulong': ctypes.c_ulong, 'long': ctypes.c_long,
       'ullong': ctypes.c_ulonglong, 'llong': ctypes.c_longlong, 'char': ctypes.c_byte, 'float': ctypes.c_float, 'double': ctypes.c_double, 'ldouble': ctypes.c_longdouble}
LIMITS = [2**k + d for k in (7, 8, 15, 16, 31, 32, 63, 64) for d in (-2, -1, 0, 1)] + [0, 1, 9, 10, 10**19, 10**20 - 1, 429496719, 429496729, 4294967296, 1844674407370955160, 1844674407370955161, 1844674407370955152, 18446744073709551609] + [10 * (2**32 // 10 - 9) + k for k in (-1, 0, 5, 9)]

def number(r, d):
    base = r.choice((10, 10, 10, 2, 16))
    x = r.random()
    if x < 0.45: v = r.choice(LIMITS)
    elif x < 0.6: v = abs(r.choice(d.ints)) + r.choice((-1, 0, 1)); v = abs(v)
    elif x < 0.8: v = r.randrange(0, 300)
    else: v = r.getrandbits(r.choice((4, 8, 16, 31, 32, 33, 48, 60, 63, 64, 65, 66, 70, 130)))
    if r.random() < .2:      # a number of digits around those of a type
        n = r.choice({16: (2, 3, 4, 5, 8, 9, 15, 16, 17, 17, 18), 2: (7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 65, 66), 10: (3, 5, 10, 11, 18, 19, 19, 20, 20, 21)}[base])
        v = r.randrange(1, base) * base ** (n - 1) + r.choice((0, r.randrange(base ** (n - 1)), base ** (n - 1) - 1))
    t = {10: '%d' % v, 16: '%x' % v, 2: bin(v)[2:]}[base]
    if r.random() < .3: t = ''.join(c.upper() if r.random() < .5 else c for c in t)
    if r.random() < .3: t = '0' * r.choice((1, 2, 3, 9, 20, 40)) + t
    if r.random() < .1: t = ''
    if r.random() < .05: t = '0' * r.randrange(0, 5)
    pre = {10: '', 16: r.choice(('0x', '0X')), 2: r.choice(('0b', '0B'))}[base]
    if r.random() < .3: pre = r.choice(('', '0', '0b', '0x', '0B', '0X', 'x', '00x'))
    return pre + t

def text(r, d):
    s = ' ' * r.choice((0, 0, 0, 1, 2, 5))
    if r.random() < .05: s += r.choice('\t\n\r\0')
    s += r.choice(('', '', '', '-', '+', '--', '+-', '- ', '-+'))
    s += number(r, d)
    if r.random() < .5: s += ''.join(r.choice('0123456789abcdefABCDEFgGxX .,+-_\0eE') for _ in range(r.randrange(1, 4)))
    b = s.encode('latin1')
    if r.random() < .15: b += bytes([r.choice(d.chars)])
    if r.random() < .1 and b:
        i = r.randrange(len(b)); b = b[:i] + bytes([r.choice(d.chars)]) + b[i + r.choice((0, 1)):]
    return b

class NumRunner(Runner):
    text = staticmethod(text)
    def __init__(s, c, lib, d, seed=1):
        s.c = c; s.gen = Gen(c, d, seed); s.lib = lib
        s.fn = getattr(lib, c.name)
        s.fn.restype = NUM.get(c.ret, ctypes.c_int)
        s.fn.argtypes = None
    def case(s, i):
        r = s.gen.rnd(i); d = s.gen.d
        out = {'_end': r.random() < .7}
        for pn, k in s.c.params:
            if k in ('view', 'view*'):
                x = r.random()
                if k == 'view*' and x < .03: v = {'null': True}
                elif x < .06: v = {'invalid': True}
                else: v = {'b': s.text(r, d)}
                out[pn] = v
            elif pn == 'options':
                x = r.random()
                out[pn] = 0 if x < .25 else r.choice((1, 2, 4, 8, 16, 32)) if x < .5 else r.randrange(0, 64) if x < .9 else r.choice((r.randrange(INT_MIN, INT_MAX), -1, 64, 128, INT_MIN))
            elif k.endswith('*?'):
                out[pn] = {'null': True} if r.random() < .08 else {'v': r.choice((0, 1, 77, 85))}
            else: out[pn] = r.choice((0, 1, 77, 123))
        return out
    def build(s, case, X):
        args = []; s.keep = []
        for pn, k in s.c.params:
            v = case[pn]
            if k in ('view', 'view*'):
                if v.get('null'): setattr(X.a, pn, P(True)); args.append(None); continue
                if v.get('invalid'): w = V(0, 0)
                else:
                    b = v['b']; a = arena(pn, 2).place(len(b), case['_end']); poke(a, b); X.add(a, b); w = V(a, len(b))
                cv = CView(w.data or None, w.size)
                if k == 'view': setattr(X.a, pn, w); args.append(cv)
                else: setattr(X.a, pn, P(False, w)); s.keep.append((pn, cv, 'view')); args.append(ctypes.byref(cv))
            elif k.endswith('*?'):
                if v.get('null'): setattr(X.a, pn, P(True)); args.append(None); continue
                t = NUM[k[:-2]]; cell = (ctypes.c_ubyte * 64)(*([0xA5] * 64)); x = t.from_buffer(cell, 16); x.value = v['v']
                setattr(X.a, pn, P(False, x.value)); s.keep.append((pn, (cell, x, ctypes.sizeof(t)), 'num')); args.append(ctypes.byref(x))
            elif k == 'int': setattr(X.a, pn, v); args.append(ctypes.c_int(v))
            else: setattr(X.a, pn, v); args.append(NUM[k](v))
        return args
    def after(s, rv, X):
        X.finish(); X.r = rv; s.outside = False
        for pn, cv, t in s.keep:
            if t == 'view': w = V(cv.data or 0, cv.size)
            else:
                w = cv[1].value
                b = bytes(cv[0])
                if b[:16] != b'\xa5' * 16 or b[16 + max(cv[2], 1):] != b'\xa5' * (48 - cv[2]): s.outside = True
            setattr(X.n, pn, P(False, w))
    def judge(s, X, rv, prop):
        bad = Runner.judge(s, X, rv, prop)
        if s.outside and prop in ('N01', 'N03', 'N04'): bad.append('only the destination is written')
        return bad

def ftext(r, d):
    s = ' ' * r.choice((0, 0, 0, 1, 3)) + r.choice(('', '', '', '-', '+', '--', '+-', '- '))
    x = r.random()
    case = lambda w: ''.join(c.upper() if r.random() < .4 else c for c in w)
    if x < .25:
        w = case(r.choice(('inf', 'infinity', 'nan', 'infin', 'infinit', 'nano', 'in', 'na', 'inf1', 'infinitys')))
        s += w[:r.randrange(1, len(w) + 1)] if r.random() < .2 else w
    else:
        def digs(n):
            y = r.random()
            if y < .15: return '0' * n
            t = ''.join(r.choice('0123456789') for _ in range(n))
            if y < .3: t = '0' * r.randrange(0, n + 1) + t
            elif y < .4: t += '0' * r.randrange(0, 30)
            elif y < .5: t = '9' * n
            return t
        n = lambda: r.choice((0, 1, 1, 2, 3, 5, 9, 10, 15, 18, 19, 20, 21, 25, 38, 39, 40, 45, 60, 100, 310, 400))
        s += digs(n()) if r.random() < .85 else ''
        if r.random() < .6: s += '.' + (digs(n()) if r.random() < .8 else '')
    if r.random() < .6:
        s += r.choice('eeeeEEEEpf ') + r.choice(('', '', '-', '+', '-', '--', ' ', '-+'))
        y = r.random()
        s += '%d' % r.randrange(0, 20) if y < .4 else '%d' % r.randrange(0, 400) if y < .6 else '%d' % r.choice((2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**63, 2**64, 10**12, 5000, 100000)) if y < .75 else '' if y < .85 else '0x1' if y < .9 else '0' * r.randrange(1, 25) + '%d' % r.randrange(0, 9)
    if r.random() < .4: s += ''.join(r.choice('0123456789.eEinfINFaA +-x\0') for _ in range(r.randrange(1, 4)))
    b = s.encode('latin1')
    if r.random() < .15: b += bytes([r.choice(d.chars)])
    if r.random() < .1 and b:
        i = r.randrange(len(b)); b = b[:i] + bytes([r.choice(d.chars)]) + b[i + r.choice((0, 1)):]
    return b

class FloatRunner(NumRunner):
    """long doubles come back through ctypes as doubles: texts whose value could only be told apart in long double are not tried"""
    def text(s, r, d):
        t = ftext(r, d)
        while s.kind == 'ldouble' and (re.search(rb'[0-9]{120}', t) or re.search(rb'[eE][+-]?0*(1[0-9][0-9]|[2-9][0-9][0-9]|[1-9][0-9]{3})(?![0-9])', t)): t = ftext(r, d)
        return t
    @property
    def kind(s): return s.c.ret if s.c.ret in s.FLIM else dict(s.c.params)['dst'][:-2]
    FLIM = {'float': (Fraction(10) ** -34, Fraction(10) ** 37, Fraction(1, 10000), 36), 'double': (Fraction(10) ** -290, Fraction(10) ** 306, Fraction(1, 10 ** 11), 300), 'ldouble': (Fraction(10) ** -300, Fraction(10) ** 306, Fraction(1, 10 ** 11), 4000)}
    def build(s, case, X):
        X.flim = s.FLIM[s.kind]
        return NumRunner.build(s, case, X)
