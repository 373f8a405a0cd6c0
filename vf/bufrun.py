"""Replay of failed buffer obligations against the compiled code: allocator, formatter and outside world are instrumented stand-ins (c/help.c)."""
import ctypes, os, struct
from .contract import V, P, NS, INT_MAX, INT_MIN
from . import contract, build
from .concrete import CX, CView, Runner, Gen, arena, poke, peek, libc, PAGE, CT_, OUT
from .buf import Bf, HS, inv, roundup
from .sym import *

HERE = os.path.dirname(os.path.abspath(__file__))
STEPS = (16, 1, 7)
SIZE = ctypes.c_size_t
vp = ctypes.c_void_p

class Alloc(ctypes.Structure):
    _fields_ = [('app_data', vp), ('allocator', vp)]

class BX(CX):
    def __init__(s):
        CX.__init__(s); s.big = []; s.large = False
    def _h(s, a, w):
        for r in s.regs:
            if r[0] <= a < r[0] + r[1]:
                if r[w] is None or a - r[0] >= len(r[w]): return OUT
                b = r[w][a - r[0]]
                return b - 256 if b > 127 else b
        for lo, n in s.big:
            if lo <= a < lo + n: return 0
        return OUT
    def all(s, lo, hi, f, pat=None):
        if hi - lo > 2500: s.gaps = True; hi = lo + 2500
        return all(bool(f(k)) for k in range(lo, hi))
    all1 = all
    def text(s): return s.text_
    def args(s): return s.args_
    def heap(s): return s.heap_
    def fetched(s): return s.io_
    def syscalls(s): return s.io_
    def frame(s, cond):
        for lo, n, b0, b1 in s.regs:
            if b0 is not None and b1 is not None and b0 != b1 and not any(lo == x for x in s.own):
                for i in range(n):
                    if b0[i] != b1[i] and cond(lo + i): return False
        return True

BIG = []
def big():
    if not BIG: BIG.append(libc.mmap(None, INT_MAX, 1, 0x4022, -1, 0))
    return BIG[0]

PRINTF = [(b'%s', 's'), (b'%s', 's'), (b'ab%scd', 's'), (b'%d', 'd'), (b'%d,%s', 'ds'), (b'%%%c', 'd'), (b'x', ''), (b'', ''), (b'%ls', 'L'), (b'%s%ls', 'sL'), (b'%*d', 'wd'), (b'%2147483000d', 'd')]
PRNF = [(b'%s', 's'), (b'%s', 's'), (b'ab%scd', 's'), (b'%i', 'd'), (b'%i,%s', 'ds'), (b'%u', 'd'), (b'x', ''), (b'', ''), (b'%s%s', 'ss')]

class BufRunner(Runner):
    @classmethod
    def library(cls, repo, c, d, ub):
        tu = c.tu
        srcs = ['strbuf.c', 'strview.c', 'test/prnf.c', HERE + '/c/help.c']
        fl = ['-DSTRBUF_PROVIDE_PRINTF', '-DSTRBUF_PROVIDE_PRNF', '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB', '-I' + repo + '/accessories']
        if tu.endswith('_io'): srcs.append('accessories/%s.c' % tu); fl += ['-Dread=vf_read', '-Dwrite=vf_write']
        if c.extra.get('srcs'): srcs += c.extra['srcs']
        for st in STEPS:
            out = os.path.join(d, 'lib%s%d_g%d.so' % (tu, ub, st))
            if not os.path.exists(out): build.compile_lib(repo, out, srcs, fl + (['-DSTRBUF_CAPACITY_GROW_STEP=%d' % st] if st != 16 else []), ub)
        return os.path.join(d, 'lib%s%d_g16.so' % (tu, ub))

    def __init__(s, c, lib, d, seed=1):
        s.c = c; s.gen = Gen(c, d, seed)
        s.libs = {}
        for st in STEPS:
            l = s.libs[st] = ctypes.CDLL(lib._name.replace('_g16.so', '_g%d.so' % st))
            for f in ('vf_new', 'vf_block', 'vf_alloc'): getattr(l, f).restype = vp
            l.vf_new.argtypes = [SIZE]; l.vf_block.argtypes = [ctypes.c_int, ctypes.POINTER(SIZE)]
            for f in ('vf_vfmt', 'vf_vcat'): getattr(l, f).restype = CView
            g = lambda n, l=l: ctypes.c_int.in_dll(l, n)
            fn = getattr(l, c.name)
            fn.restype = {'buf*': vp}.get(c.ret) if c.ret == 'buf*' else CT_[c.ret]

    # ---- cases
    def case(s, i):
        r = s.gen.rnd(i)
        al = s.gen.alphabet(r)
        out = {'_end': r.random() < .7, 'step': r.choice(s.c.extra.get('steps', (16,)))}
        if out['step'] not in STEPS: out['step'] = 16
        content = b''
        texts = []
        c = s.c
        for pn, k in sorted(c.params, key=lambda p: not p[1].startswith('buf**')):
            if k.startswith('buf**'):
                x = r.random()
                kind = 'null' if x < .01 and k == 'buf**' else 'none' if x < .03 and k == 'buf**' else 'fix' if x < .45 else 'dyn'
                content = s.gen.text(r, al)
                extra = r.choice((0, 0, 1, 1, 2, 3, 5, 15, 16, 17, r.randrange(0, 60)))
                if r.random() < .1: content = b''
                if r.random() < .06: extra = max(0, r.choice([v for v in s.gen.d.ints if 0 <= v <= 70000]) * r.choice((1, 1, 2)) + r.choice((-1, 0, 1, 2, 100)))
                out[pn] = {'kind': kind, 'b': content, 'cap': len(content) + extra}
                texts.append(content)
                cap = len(content) + extra
                if kind in ('null', 'none'): content = None
            elif k in ('bview', 'bcstr', 'view*'):
                out[pn] = s.view(r, al, k, content, texts, cap if any(q.startswith('buf**') for _, q in c.params) else 0)
            elif k == 'int':
                x = r.random(); n = len(content or b'')
                v = r.randrange(-n - 3, n + 4) if x < .7 else r.choice(s.gen.d.ints) if x < .9 else r.choice((INT_MAX, INT_MIN, INT_MIN + 1, -n, n, n + 1, -n - 1))
                if pn == 'min_size' and x < .5: v = r.randrange(0, n + 100) if x < .35 else r.randrange(0, cap + 100)
                out[pn] = v
            elif k == 'char': out[pn] = r.choice(al)
            elif k == 'size':
                v = r.choice((0, 1, 2, 7, 8, 15, 16, 17, 100, r.randrange(0, 300), r.randrange(0, 300)))
                if r.random() < .1: v = r.choice((2**31, 2**31 - 1, 2**32, 2**32 + 5, 2**64 - 1, 2**63, 2**31 + 24))
                out[pn] = v
            elif k == 'alloc*': out[pn] = {'kind': r.choice(('ok', 'ok', 'null', 'nofn'))}
            elif k in ('va', 'ptr?', 'fetcher'): out[pn] = r.randrange(1, 2**40) if k == 'ptr?' else 0
            elif k == 'fmt':
                f, ty = r.choice(PRINTF if c.extra['fmtr'] == 'printf' else PRNF)
                if b'2147' in f and r.random() < .9: f, ty = b'%s', 's'
                vals = []
                for t in ty:
                    if t == 's':
                        n = None if r.random() < .5 else max(0, cap - len(content or b'') + r.randrange(-2, 3)) if r.random() < .5 else max(0, cap + r.randrange(-2, 3))
                        vals.append(s.gen.text(r, [x or 65 for x in al], n).replace(b'\0', b''))
                    elif t == 'd': vals.append(r.choice((0, 1, -1, 65, INT_MIN, INT_MAX, r.randrange(-10**6, 10**6))))
                    elif t == 'w': vals.append(r.randrange(-40, 40))
                    else: vals.append(0)
                if t_end(f): vals = [65 for _ in vals]
                out[pn] = {'f': f, 'ty': ty, 'vals': vals}
            elif k == 'ptr': pass
            else: raise Unsupported('concrete ' + k)
        if 'n_args' in out:
            n = r.choice((0, 1, 1, 2, 2, 3, 4, 6, 12))
            out['n_args'] = n
            out['views'] = [s.view(r, al, 'bview', content, texts, cap) for _ in range(n)]
        if c.name == 'strbuf_create_fixed': out['addr'] = {'null': r.random() < .1, 'off': r.choice((0, 0, 0, 1, 2, 4))}; out['addr_size'] = r.choice((0, 1, 23, 24, 25, 26, 31, 32, 33, 40, 57, r.randrange(24, 200))) if out['addr_size'] > 2**20 and r.random() < .7 or r.random() < .8 else out['addr_size']
        if c.extra.get('io') or any(k == 'fetcher' for _, k in c.params):
            out['ret'] = r.choice((-1, 0, 1, 2, 3, 5, r.randrange(-3, 70), 'all', 'all', 'more', INT_MAX, INT_MIN))
        return out

    def view(s, r, al, k, content, texts, cap):
        x = r.random()
        if k == 'view*' and x < .03: return {'null': True}
        if x < .06: return {'null': True} if k == 'bcstr' else {'invalid': True}
        if content is not None and x < .45:
            n = len(content); a = r.randrange(0, n + 1)
            if k == 'bcstr': return {'in': a}
            b = r.randrange(a, n + 1)
            if r.random() < .2: a = 0
            if r.random() < .3: b = n
            return {'in': a, 'len': b - a}
        if k == 'bview' and x < .47: return {'big': r.choice((INT_MAX, INT_MAX - 1, 2**30, 2**30 + 1))}
        n = None if x < .7 else max(0, cap + r.randrange(-2, 3)) if x < .75 else max(0, cap - len(content or b'') + r.randrange(-2, 3)) if x < .85 else r.randrange(0, 5)
        b = s.gen.text(r, al, n)
        if k == 'bcstr': b = b.replace(b'\0', b'')
        return {'b': b}

    # ---- setting up
    def put(s, X, key, b, end, align=1):
        a = arena(key, 2 + len(b) // PAGE).place(len(b), end, align)
        poke(a, b); X.add(a, b)
        return a

    def build(s, case, X):
        c = s.c
        s.L = L = s.libs[case['step']]
        s.keep = []; s.case_ = case; s.extra = []
        L.vf_reset()
        X.own = []; X.step = case['step']; X.sc = {}
        X.io_ = []; X.heap_ = []; X.args_ = []
        vfa = ctypes.cast(L.vf_alloc, vp).value
        app = 0x55aa0 if len(c.params) % 2 else 0x1234560
        ctypes.c_void_p.in_dll(L, 'vf_app').value = app; ctypes.c_void_p.in_dll(L, 'vf_fn').value = vfa
        got = {}
        order = sorted(c.params, key=lambda p: not p[1].startswith('buf**'))
        for pn, k in order:
            v = case.get(pn)
            if k.startswith('buf**'):
                if v['kind'] == 'null': setattr(X.a, pn, Bf(null=True)); got[pn] = None; s.pb = None; continue
                s.pb = vp(0)
                got[pn] = ctypes.byref(s.pb)
                if v['kind'] == 'none': setattr(X.a, pn, Bf(none=True)); continue
                b, cap = v['b'], v['cap']; n = HS + cap + 1
                dyn = v['kind'] == 'dyn'
                if dyn: a = L.vf_new(n)
                else: a = arena('buf', 3 if n < 9000 else 3 + n // PAGE).place((n + 7) & ~7, True, 8)
                img = struct.pack('<iiQQ', len(b), cap, app if dyn else 0, vfa if dyn else 0) + b + b'\0' + bytes((0xC3,)) * (cap - len(b))
                if not dyn: img += b'\x5a' * (((n + 7) & ~7) - n)
                poke(a, img); X.add(a, img); X.own.append(a)
                s.pb.value = a
                setattr(X.a, pn, Bf(addr=a, size=len(b), cap=cap, dyn=dyn, ad=app if dyn else 0, af=vfa if dyn else 0, n=n))
            elif k in ('bview', 'bcstr', 'view*'):
                w = s.mkview(X, pn, k, v, case)
                if k == 'view*':
                    if v.get('null'): setattr(X.a, pn, P(True)); got[pn] = None; continue
                    cv = CView(w.data or None, w.size); s.keep.append((pn, cv)); setattr(X.a, pn, P(False, w)); got[pn] = ctypes.byref(cv); continue
                setattr(X.a, pn, w)
                got[pn] = CView(w.data or None, w.size) if k == 'bview' else vp(w.data or None)
            elif k == 'char':
                x = v - 256 if v > 127 else v
                setattr(X.a, pn, x); got[pn] = ctypes.c_byte(x)
            elif k == 'alloc*':
                own = (app, 0 if v['kind'] == 'nofn' else vfa)
                X.g.own = own
                D = Alloc.in_dll(L, 'strbuf_default_allocator')
                if v['kind'] == 'null': D.app_data, D.allocator = own[0], own[1]; setattr(X.a, pn, P(True)); got[pn] = None
                else:
                    D.app_data, D.allocator = 0, 0x10
                    s.al = Alloc(own[0] or None, own[1] or None); setattr(X.a, pn, P(False, own)); got[pn] = ctypes.byref(s.al)
            elif k == 'ptr' and c.name == 'strbuf_create_fixed':
                n = case['addr_size']; X.step = 16
                if v['null']: X.a.addr = 0; got[pn] = None
                else:
                    m = (min(n, 5000) + 7) & ~7
                    a = arena('fixmem', 3).place(m, True, 8)
                    if v['off']: a -= 8 - v['off']
                    img = bytes((7 * q + 1) & 255 for q in range(min(n, 5000)))
                    poke(a, img); X.add(a, img); X.a.addr = a; got[pn] = vp(a)
            elif k == 'fmt':
                f = ctypes.create_string_buffer(v['f']); s.keepf = f
                X.a.format = ctypes.addressof(f); got[pn] = f
                ex = []
                for t, w in zip(v['ty'], v['vals']):
                    if t == 's': ex.append(ctypes.create_string_buffer(bytes(w)))
                    elif t == 'L': ex.append(ctypes.create_string_buffer(b'\x00\x00\x11\x7f\0\0\0\0'))
                    else: ex.append(ctypes.c_int(w))
                s.extra = ex
                prnf = c.extra['fmtr'] == 'prnf'
                if t_end(v['f']): X.text_ = (lambda j: 32), int(v['f'][1:-1])
                else:
                    o = ctypes.create_string_buffer(1 << 16)
                    n = (L.vf_ptext if prnf else L.vf_text)(o, SIZE(1 << 16), f, *ex)
                    X.text_ = (lambda j, o=o.raw: o[j] - 256 if o[j] > 127 else o[j]), n
            elif k == 'va': got[pn] = None; setattr(X.a, pn, None)
            elif k == 'ptr?': setattr(X.a, pn, v); got[pn] = vp(v)
            elif k == 'fetcher': setattr(X.a, pn, ctypes.cast(L.vf_fetch, vp).value); got[pn] = L.vf_fetch
            elif k == 'size': setattr(X.a, pn, v); got[pn] = SIZE(v)
            else: setattr(X.a, pn, v); got[pn] = CT_[k](v)
        if 'views' in case:
            vs = [s.mkview(X, 'arg%d' % i, 'bview', v, case) for i, v in enumerate(case['views'])]
            X.args_ = vs; s.extra = [CView(w.data or None, w.size) for w in vs]
        if 'ret' in case:
            src = bytes((31 * i + 7) & 255 for i in range(8192)); s.srcmem = ctypes.create_string_buffer(src)
            ctypes.c_void_p.in_dll(L, 'vf_io_src').value = ctypes.addressof(s.srcmem)
            b = next((getattr(X.a, pn) for pn, k in c.params if k.startswith('buf**')), None)
            if b is not None: lim = 0 if b.absent else (b.size if c.extra.get('io') == 'write' else b.cap - b.size)
            else: lim = X.a.src.v.size if not X.a.src.null else 0
            r = case['ret']
            r = lim if r == 'all' else lim + 1 if r == 'more' else r
            if c.extra.get('io'): r = max(-1, min(r, lim))
            s.ret = r
            ctypes.c_int.in_dll(L, 'vf_io_ret').value = r; ctypes.c_int.in_dll(L, 'vf_io_calls').value = 0
        ctypes.c_int.in_dll(L, 'vf_calls').value = 0
        return [got[pn] for pn, k in c.params]

    def mkview(s, X, pn, k, v, case):
        if v.get('null') or v.get('invalid'): return V(0, 0)
        b = next((getattr(X.a, q) for q, kk in s.c.params if kk.startswith('buf**')), None)
        if 'in' in v:
            if b is None or b.absent: return V(0, 0)
            if k == 'bcstr':
                n = 0
                while X.H(b.c + v['in'] + n) != 0: n += 1
                return V(b.c + v['in'], n)
            return V(b.c + v['in'], v['len'])
        if 'big' in v:
            X.big.append((big(), INT_MAX)); return V(big(), v['big'])
        t = bytes(v['b']) + (b'\0' if k == 'bcstr' else b'')
        a = s.put(X, pn, t, case['_end'])
        return V(a, len(t) - (k == 'bcstr'))

    def prepare(s, case):
        X = BX()
        args = s.build(case, X)
        b = next((getattr(X.a, q) for q, kk in s.c.params if kk.startswith('buf**')), None)
        tot = sum(v.size for v in [x for q, x in X.a.__dict__.items() if q != 'dst'] + X.args_ if isinstance(v, V))
        base = 0 if b is None or b.absent or not ('append' in s.c.name or 'insert' in s.c.name or 'prepend' in s.c.name) else b.size
        X.large = tot > 10**7
        if (b is None or b.dyn) and 10**7 < tot + base <= INT_MAX: return None
        if 'strip' in s.c.name and tot > 10**7: return None
        if getattr(X, 'text_', None) and X.text_[1] > 10**6 and (b is None or b.dyn): return None
        if s.c.pre:
            for q in s.c.pre(X):
                if not q: return None
        return X, args

    def call(s, args):
        c, L = s.c, s.L
        fn = getattr(L, c.name)
        if any(k == 'va' for _, k in c.params):
            a = [x for x, (_, k) in zip(args, c.params) if k != 'va']
            return (L.vf_vcat if 'n_args' in s.case_ else L.vf_vfmt)(fn, *a, *s.extra)
        return fn(*args, *s.extra)

    # ---- afterwards
    def look(s, X, p):
        """the buffer at address p as it is now"""
        if not p: return Bf(none=True)
        n = None
        for a, m in X.heap_:
            if a == p: n = m; b = None
        if n is None:
            for lo, m, b0, b1 in X.regs:
                if lo == p and b1 is not None: n = m
            for pn, k in s.c.params:
                if k.startswith('buf**') and getattr(X.a, pn).addr == p and not getattr(X.a, pn).dyn: n = getattr(X.a, pn).n
        if n is None or n < HS + 1: return Bf(ok=False, addr=p)
        size, cap, ad, af = struct.unpack('<iiQQ', peek(p, HS))
        return Bf(addr=p, size=size, cap=cap, ad=ad, af=af, n=n, dyn=None)

    def after(s, rv, X):
        L, c = s.L, s.c
        L.vf_check()
        s.blocks = []
        for i in range(L.vf_nblocks()):
            n = SIZE(); a = L.vf_block(i, ctypes.byref(n))
            s.blocks.append((a, n.value))
        X.heap_ = [(a, n) for a, n in s.blocks if a]
        live = {a for a, _ in X.heap_}
        dead = {getattr(X.a, pn).addr for pn, k in c.params if k.startswith('buf**') and getattr(X.a, pn).dyn} - live
        for r in X.regs:
            if r[0] not in dead: r[3] = peek(r[0], r[1])
        for a, n in X.heap_:
            if not any(r[0] == a for r in X.regs): X.regs.insert(0, [a, n, None, peek(a, min(n, 1 << 20))])
        k = c.ret
        if k == 'view': X.r = V(rv.data or 0, rv.size)
        elif k == 'buf*': X.r = s.look(X, rv or 0); X.rp = rv or 0
        elif k == 'ptr': X.r = rv or 0
        elif k == 'void': X.r = None
        else: X.r = rv
        for pn, k in c.params:
            if k.startswith('buf**'):
                b = getattr(X.a, pn)
                if b.null: setattr(X.n, pn, Bf(null=True)); continue
                n = s.look(X, s.pb.value or 0); n.dyn = b.dyn
                setattr(X.n, pn, n)
        for pn, cv in s.keep: setattr(X.n, pn, P(False, V(cv.data or 0, cv.size)))
        if 'ret' in s.case_:
            calls = ctypes.c_int.in_dll(L, 'vf_io_calls').value
            src = s.srcmem.raw
            at = ctypes.c_void_p.in_dll(L, 'vf_io_ptr').value or 0
            D = lambda k: (lambda x: x - 256 if x > 127 else x)(src[(k - at) & 4095])
            X.io_ = [(s.ret, D)] * calls

    def common(s, X):
        c, L = s.c, s.L
        g = lambda n: ctypes.c_int.in_dll(L, n).value
        out = [('B01', 'nothing is written outside the blocks of the allocator', g('vf_bad_canary') == 0),
               ('B05', 'the allocator gets its own data', g('vf_bad_this') == 0), ('B05', 'the allocator gets a block the operation owns', g('vf_bad_ptr') == 0),
               ('B05 B06', 'the requested size is a sane one', g('vf_bad_size') == 0)]
        if 'ret' in s.case_ and X.io_:
            ptr, n = ctypes.c_void_p.in_dll(L, 'vf_io_ptr').value or 0, SIZE.in_dll(L, 'vf_io_n').value
            b = next((getattr(X.a, q) for q, k in c.params if k.startswith('buf**')), None)
            want = None
            if b is None: want = (X.a.src.v.data, X.a.src.v.size) if not X.a.src.null else (0, 0)
            elif not b.absent: want = (b.c, b.size) if c.extra.get('io') == 'write' else (b.c + b.size, b.cap - b.size)
            if want is not None:
                out.append(('B10', 'the address handed over is that of the data', ptr == want[0])); out.append(('B10', 'the length handed over is exact', n == want[1]))
            if c.extra.get('io'): out.append(('B10', 'the descriptor is that of the caller', g('vf_io_fd') == X.a.fd))
            else: out.append(('B10', 'the fetcher gets the variables of the caller', (ctypes.c_void_p.in_dll(L, 'vf_io_vars').value or 0) == X.a.fetch_vars))
        out.append((c.frame_prop(), 'memory outside the buffer is unchanged', X.frame(lambda k: not (c.name == 'strbuf_create_fixed'))))
        pns = [p for p, k in c.params if k.startswith('buf**')]
        if not pns: return out
        b, n = getattr(X.a, pns[0]), getattr(X.n, pns[0])
        alive = [a for a, _ in X.heap_]
        if b.absent:
            if b.none: out.append(('B01', 'a null buffer stays null', n.none))
            out.append(('B01', 'an operation without a buffer allocates nothing', g('vf_calls') == 0))
            return out
        if not b.dyn: out.append(('B04', 'an operation on a fixed buffer calls no allocator', g('vf_calls') == 0))
        if c.extra.get('releases'): return out
        out.append(('B01 B05', 'the buffer pointer refers to a live, initialised buffer', (not n.none) and n.ok))
        if n.none or not n.ok: return out
        labels = ['size is not negative', 'size is at most the capacity', 'capacity is an int', 'the content is zero terminated', 'content and terminator lie in memory the buffer owns']
        out += [('B01 B05' if l is labels[4] else 'B01', l, q) for l, q in zip(labels, inv(n, X.H1))]
        out.append(('B05', 'the allocator of the buffer stays the same', (n.ad, n.af) == (b.ad, b.af)))
        if b.dyn: out.append(('B05', 'every block obtained is freed or is the memory of the buffer', alive == [n.addr]))
        else:
            out.append(('B04', 'a fixed buffer keeps its address', n.addr == b.addr)); out.append(('B04', 'a fixed buffer keeps its capacity', n.cap == b.cap))
            m = (b.n + 7) & ~7
            out.append(('B01', 'nothing is written after a fixed buffer', all(X.H1(b.addr + k) == 0x5a for k in range(b.n, m))))
        return out

    def judge(s, X, rv, prop):
        s.after(rv, X)
        if X.large and any(isinstance(q, Bf) and not q.absent and q.ok and q.size > 10**7 for q in X.n.__dict__.values()): s.L.vf_reset(); return []      # not looked at in full
        al = s.common(X)
        if not any(l.startswith('the buffer pointer refers') and not q for _, l, q in al) and s.c.post: al += list(s.c.post(X))
        s.L.vf_reset()
        return [l for p, l, q in al if prop in p.split() and not q]

def t_end(f): return b'2147' in f

class ViewIORunner(BufRunner):
    pass

class StdRunner(BufRunner):
    """the default allocator, over stand-ins for malloc(), realloc() and free()"""
    @classmethod
    def library(cls, repo, c, d, ub):
        out = os.path.join(d, 'libstd%d.so' % ub)
        if not os.path.exists(out):
            build.compile_lib(repo, out, ['strbuf.c', 'strview.c', 'test/prnf.c', HERE + '/c/help.c'], ['-DSTRBUF_PROVIDE_PRINTF', '-DSTRBUF_PROVIDE_PRNF', '-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB',
                '-Dfree=vf_sfree', '-Drealloc=vf_srealloc', '-Dmalloc=vf_smalloc', '-Dcalloc=vf_scalloc'], ub)
        return out
    def __init__(s, c, lib, d, seed=1):
        s.c = c; s.gen = Gen(c, d, seed); s.L = L = lib
        L.vf_new.restype = vp; L.vf_new.argtypes = [SIZE]; L.vf_block.restype = vp; L.vf_block.argtypes = [ctypes.c_int, ctypes.POINTER(SIZE)]
        s.D = Alloc.in_dll(L, 'strbuf_default_allocator')
        s.fn = ctypes.CFUNCTYPE(vp, vp, vp, SIZE)(s.D.allocator)
    def case(s, i):
        r = s.gen.rnd(i)
        return {'old': r.choice((0, 1, 8, 25, 40, 100, r.randrange(1, 500))), 'size': r.choice((0, 0, 1, 8, 25, 26, 100, r.randrange(1, 600))), 'fail': r.random() < .2}
    def prepare(s, case):
        X = BX(); L = s.L; s.keep = []; s.case_ = case
        L.vf_reset(); X.own = []; X.old = None
        p = 0
        if case['old']:
            p = L.vf_new(case['old']); img = bytes((13 * i + 5) & 255 for i in range(case['old'])); poke(p, img); X.add(p, img); X.old = (p, case['old'])
        X.a.size = case['size']
        ctypes.c_int.in_dll(L, 'vf_fail').value = case['fail']
        return X, [ctypes.byref(s.D), vp(p), SIZE(case['size'])]
    def call(s, args): return s.fn(*args)
    def judge(s, X, rv, prop):
        L = s.L; L.vf_check()
        g = lambda n: ctypes.c_int.in_dll(L, n).value
        X.heap_ = []
        for i in range(L.vf_nblocks()):
            n = SIZE(); a = L.vf_block(i, ctypes.byref(n))
            if a: X.heap_.append((a, n.value))
        for a, n in X.heap_:
            if X.old and a == X.old[0]: X.regs[0][3] = peek(a, n)
            else: X.regs.insert(0, [a, n, None, peek(a, n)])
        X.r = rv or 0
        al = [('B05', 'only blocks still owned are released', g('vf_bad_ptr') == 0), ('B05', 'at least one byte is asked for', g('vf_bad_size') == 0)] + s.c.post(X)
        s.L.vf_reset()
        return [l for p, l, q in al if prop in p.split() and not q]
