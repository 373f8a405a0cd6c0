"""Replay of failed obligations: the contract, read over concrete values, against the real compiled code.
Only ever used after an obligation was not discharged; finding nothing never turns a failed obligation into a pass."""
import math
from fractions import Fraction
import ctypes, os, sys, mmap, random, json, time, signal, subprocess, struct, hashlib, itertools
from .contract import V, P, NS, CONTRACTS, INT_MAX, INT_MIN
from .sym import *

class CView(ctypes.Structure):
    _fields_ = [('data', ctypes.c_void_p), ('size', ctypes.c_int)]

libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
PAGE = 4096
OUT = 0x7777          # "byte" outside every known region: equal to nothing

class Arena:
    """guarded memory: [guard | pages | guard]"""
    def __init__(s, pages):
        s.n = pages * PAGE
        base = libc.mmap(None, s.n + 2 * PAGE, 0, 0x22, -1, 0)
        s.lo = base + PAGE; s.hi = s.lo + s.n
        if libc.mprotect(s.lo, s.n, 3): raise OSError('mprotect')
    def place(s, n, at_end, align=1):
        """address of n bytes flush against the end (or start) guard"""
        a = s.hi - n if at_end else s.lo
        if at_end: a -= a % align
        return a

def peek(a, n): return ctypes.string_at(a, n) if n else b''
def poke(a, b):
    if b: ctypes.memmove(a, bytes(b), len(b))

class CX:
    concrete = True
    applying = False
    def __init__(s):
        s.a = NS(); s.n = NS(); s.g = NS(); s.r = None; s.regs = []; s.sc = {}
        s.gaps = False
    def add(s, lo, b0): s.regs.append([lo, len(b0), b0, None])
    def finish(s):
        for r in s.regs: r[3] = peek(r[0], r[1])
    def _h(s, a, w):
        for r in s.regs:
            if r[0] <= a < r[0] + r[1]:
                b = r[w][a - r[0]]
                return b - 256 if b > 127 else b
        return OUT
    def H(s, a): return s._h(a, 2)
    def H1(s, a): return s._h(a, 3)
    def IN(s, v, c): return v.size > 0 and any(s.H(v.data + i) == c for i in range(min(v.size, 100000)))
    def DIFF(s, p, q, n, nocase=False):
        from .theory import toup, u8
        if n <= 0: return n if n == 0 else 0
        for i in range(min(n, 1 << 20)):
            x, y = s.H(p + i), s.H(q + i)
            if nocase: x, y = toup(u8(x)), toup(u8(y))
            if x != y: return i
        return n
    def PAR(s, a): return lambda e: sum(1 for k in range(a, min(e, a + 100000)) if s.H(k) == 34) % 2 == 1
    def PARB(s, a): return lambda e: sum(1 for k in range(max(e, a - 100000), a) if s.H(k) == 34) % 2 == 1
    ideal = True
    def ival(s, p, e): return Fraction(s.VAL(10, p, e))
    def FRAC(s, p, e): return Fraction(s.VAL(10, p, e), 10 ** (e - p)) if e > p else Fraction(0)
    def scale(s, x, n): return x * Fraction(10) ** n if x and abs(n) < 6000 else x if not x else None
    def fkind(s, v): return 3 if v != v else 1 if v == math.inf else 2 if v == -math.inf else 0
    def fis(s, v, x):
        """equal up to rounding; exact values out of the range of the type are left aside"""
        if x is None: return True
        lim = s.flim
        if x == 0: return v == 0
        if not lim[0] <= abs(x) <= lim[1]: return True
        if s.fkind(v): return False
        return abs(Fraction(v) - x) <= abs(x) * lim[2]
    def fge0(s, v): return v >= 0
    def fneg(s, v): return -v
    def when(s, c, sane, then): return not c or not sane() or then()
    def inrange(s, g):
        """neither the value nor the parts it is computed from leave the range of the type"""
        n = s.flim[3]
        if abs(g.exp) > n or g.f2 - g.f1 > n or g.i2 - g.s1 > 5000: return False
        i, x = s.ival(g.s1, g.i2), g.value()
        return i <= s.flim[1] and (x == 0 or s.flim[0] <= abs(x) <= s.flim[1])
    def fsame(s, a, b): return a == b or (a != a and b != b)
    def mark(s, *ts): pass
    def RUN(s, kind, p, e):
        from .theory import CLASS
        while p < e and CLASS[kind](s.H(p)): p += 1
        return p
    def VAL(s, base, p, e):
        from .theory import digval
        v = 0
        for k in range(p, e): v = v * base + digval(s.H(k))
        return v
    def all(s, lo, hi, f, pat=None):
        if hi - lo > 300000: s.gaps = True; hi = lo + 300000
        return all(bool(f(k)) for k in range(lo, hi))
    all1 = all
    def ex_(s, lo, hi, f, pat=None):
        return any(bool(f(k)) for k in range(lo, hi))
    def frame(s, cond):
        for lo, n, b0, b1 in s.regs:
            if b0 != b1:
                for i in range(n):
                    if b0[i] != b1[i] and cond(lo + i): return False
        return True

CT_ = {'int': ctypes.c_int, 'bool': ctypes.c_bool, 'char': ctypes.c_char, 'size': ctypes.c_size_t, 'uint': ctypes.c_uint, 'ptr': ctypes.c_void_p, 'view': CView, 'void': None}

class Dict:
    """values worth trying, taken from the source text of the functions involved"""
    def __init__(s, chars=(), ints=(), strs=()):
        s.chars = sorted(set(c & 255 for c in chars) | {ord(c) for c in 'ab"\'\r\n,= zZ@['} | {0, 1, 0x7f, 0x80, 0xff, 0xe1, 0xc1, 0xb0, 0xb1, 0xb9, 0x30, 0x39})
        s.ints = sorted(set(v for v in ints if INT_MIN <= v <= INT_MAX) | {0, 1, 2, -1, INT_MAX, INT_MIN, 255, 256})
        s.strs = list(strs)

def harvest(tus, names):
    """literals of the functions reachable from names"""
    chars, ints, strs = set(), set(), set()
    seen = set()
    def walk(n):
        if n.kind == 'CharacterLiteral': chars.add(int(n.j['value']) & 255)
        elif n.kind == 'IntegerLiteral':
            v = int(n.j['value'])
            if abs(v) < 2**31: ints.update((v, v + 1, v - 1, -v))
            if 0 < v < 256: chars.add(v)
        elif n.kind == 'StringLiteral':
            try:
                import ast
                x = n.j['value']; b = ast.literal_eval('b' + x[x.index('"'):]); strs.add(b); chars.update(b)
            except Exception: pass
        elif n.kind == 'DeclRefExpr':
            rd = n.j.get('referencedDecl', {})
            if rd.get('kind') == 'FunctionDecl': visit(rd['name'])
        for c in n.inner: walk(c)
    def visit(nm):
        if nm in seen: return
        seen.add(nm)
        for t in tus:
            f = t.funcs.get(nm)
            if f is not None and f.body is not None and not (f.file or '').startswith('/usr'): walk(f.body)
    for n in names: visit(n)
    return chars, ints, strs

class Gen:
    """deterministic generator of argument sets for one contract"""
    def __init__(s, c, d, seed):
        s.c, s.d, s.seed = c, d, seed
    def rnd(s, i): return random.Random('%s/%s/%d' % (s.seed, s.c.name, i))
    def alphabet(s, r):
        k = r.choice((1, 2, 2, 3, 4))
        al = [r.choice(s.d.chars) for _ in range(k)]
        if r.random() < 0.4: al += [ord('"')]
        if r.random() < 0.2: al += [13, 10]
        if r.random() < 0.3:
            x = r.choice(b'azAZmM'); al += [x, x ^ 32]
        return al
    def size(s, r):
        x = r.random()
        if x < 0.6: return r.randrange(0, 7)
        if x < 0.85: return r.randrange(0, 40)
        if x < 0.93:
            c = [v for v in s.d.ints if 0 <= v <= (5000 if r.random() < .8 else 70000)]
            return max(0, r.choice(c) + r.choice((-1, 0, 1)))
        return r.choice((63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000))
    def text(s, r, al, n=None):
        n = s.size(r) if n is None else n
        b = bytes(r.choice(al) for _ in range(n))
        if s.d.strs and r.random() < 0.1:
            t = r.choice(s.d.strs); b = t + b if r.random() < .5 else b + t
        return b

ARENAS = {}
def arena(key, pages=4):
    if (key, pages) not in ARENAS: ARENAS[key, pages] = Arena(pages)
    return ARENAS[key, pages]

class Runner:
    """runs one contract on concrete arguments against a compiled library"""
    def __init__(s, c, lib, d, seed=1):
        s.c = c; s.gen = Gen(c, d, seed)
        s.lib = lib
        s.fn = getattr(lib, c.name)
        s.fn.restype = CT_[c.ret]
        s.fn.argtypes = None

    def case(s, i):
        """description of case i: {param: value}"""
        r = s.gen.rnd(i); d = s.gen.d
        al = s.gen.alphabet(r)
        out = {'_end': r.random() < 0.7}
        prev = []
        texts = []
        for pn, k in s.c.params:
            if k in ('view', 'view*', 'view*!'):
                x = r.random()
                if k == 'view*' and x < 0.03: v = {'null': True}
                elif x < 0.08: v = {'invalid': True}
                elif prev and x < 0.45:
                    src = r.choice(prev); n = len(out[src]['b'])
                    pre, post = out[src].get('pre', b''), out[src].get('post', b'')
                    whole = pre + out[src]['b'] + post; m = len(pre); n1 = len(whole)
                    a = r.randrange(0, n1 + 1); b = r.randrange(a, n1 + 1)
                    if r.random() < .6: a = max(a, m)
                    if r.random() < .6: b = min(b, m + n)
                    if r.random() < 0.2: a = m
                    if r.random() < 0.3: b = m + n
                    if b < a: a = b
                    v = {'of': src, 'from': a - m, 'len': b - a, 'b': whole[a:b]}
                elif texts and x < 0.65:      # a copy of (part of) another text, maybe with one byte changed
                    t = bytearray(r.choice(texts))
                    if t and r.random() < 0.5:
                        a = r.randrange(0, len(t)); t = t[a:] if r.random() < .5 else t[:a]
                    if t and r.random() < 0.5: t[r.randrange(len(t))] = r.choice(al + [t[0] ^ 32, t[0] ^ 128])
                    v = {'b': bytes(t)}
                else: v = {'b': s.gen.text(r, al, None if len(texts) == 0 or r.random() < .3 else r.randrange(0, 4))}
                if 'b' in v and 'of' not in v:
                    prev.append(pn)
                    if r.random() < .35: v['pre'] = bytes(r.choice(al) for _ in range(r.randrange(0, 5))); v['post'] = bytes(r.choice(al) for _ in range(r.randrange(0, 5)))
                if 'b' in v: texts.append(v['b'])
                out[pn] = v
            elif k == 'cstr':
                if r.random() < 0.05: out[pn] = {'null': True}
                else:
                    x = r.random()
                    if texts and x < 0.35:
                        t = bytearray(r.choice(texts))
                        if t and r.random() < 0.5: a = r.randrange(0, len(t)); t = t[a:] if r.random() < .5 else t[:a]
                        if t and r.random() < 0.3: t[r.randrange(len(t))] ^= 32
                    else: t = s.gen.text(r, al, r.randrange(0, 4))
                    t = bytes(t).replace(b'\0', b'')
                    out[pn] = {'b': t}; texts.append(t)
            elif k == 'char*?':
                out[pn] = {'null': True} if r.random() < 0.2 else {'v': r.choice([0, 13, 10] if r.random() < .8 else d.chars)}
            elif k in ('int', 'uint', 'size'):
                x = r.random(); n = max([len(t) for t in texts] or [0])
                if x < 0.5: v = r.randrange(-n - 3, n + 4)
                elif x < 0.8: v = r.choice(d.ints)
                elif x < 0.9: v = r.choice((INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, INT_MIN + n, INT_MAX - n, -n, n))
                else: v = r.randrange(INT_MIN, INT_MAX)
                if k != 'int': v = abs(v) % (2**31) if k == 'uint' else abs(v)
                out[pn] = v
            elif k == 'bool': out[pn] = r.random() < 0.5
            elif k == 'char': out[pn] = r.choice(al)
            elif k.startswith('wmem?'): out[pn] = {'null': True} if r.random() < 0.1 else {'w': 1}
            elif k.startswith('view[]'): out[pn] = {'arr': 1}
            else: raise Unsupported('concrete ' + k)
        for pn, k in s.c.params:
            if k.startswith('view[]'):
                out[k.split(':')[1]] = r.choice((1, 1, 2, 3, 4, 7, 20))
            if k.startswith('wmem?'):
                q = k.split(':')[1]
                if out[q] > 600: out[q] = r.choice((0, 1, 2, 3, 5, 8, 300, len(texts[0]) if texts else 4))
                if texts and r.random() < .6: out[q] = max(0, len(texts[0]) + r.choice((-2, -1, 0, 1, 2, 3)))
                out[pn]['n'] = out[q]
        return out

    def build(s, case, X):
        args = []
        s.keep = []
        for pn, k in s.c.params:
            v = case[pn]
            if k in ('view', 'view*', 'view*!'):
                if v.get('null'): setattr(X.a, pn, P(True)); args.append(None); continue
                if v.get('invalid'): w = V(0, 0)
                elif 'of' in v:
                    o = getattr(X.a, v['of']); o = o.v if isinstance(o, P) else o
                    w = V(o.data + v['from'], v['len'])
                else:
                    b = v['b']; a = arena(pn, 2 + len(b) // PAGE if len(b) > 8000 else 2).place(len(b), case['_end']) 
                    pre = v.get('pre', b''); b = pre + b + v.get('post', b'')
                    if len(b) != len(v['b']): a = arena(pn, 2 + len(b) // PAGE if len(b) > 8000 else 2).place(len(b), case['_end'])
                    poke(a, b); X.add(a, b); w = V(a + len(pre), len(v['b']))
                cv = CView(w.data or None, w.size)
                if k == 'view': setattr(X.a, pn, w); args.append(cv)
                else:
                    setattr(X.a, pn, P(False, w)); s.keep.append((pn, cv, 'view')); args.append(ctypes.byref(cv))
            elif k == 'cstr':
                if v.get('null'): setattr(X.a, pn, V(0, 0)); args.append(None); continue
                b = v['b'] + b'\0'
                a = arena(pn, 2).place(len(b), case['_end'])
                poke(a, b); X.add(a, b)
                setattr(X.a, pn, V(a, len(b) - 1)); args.append(ctypes.c_void_p(a))
            elif k == 'char*?':
                if v.get('null'): setattr(X.a, pn, P(True)); args.append(None); continue
                x = v['v']; x = x - 256 if x > 127 else x
                cv = ctypes.c_byte(x); setattr(X.a, pn, P(False, x)); s.keep.append((pn, cv, 'char')); args.append(ctypes.byref(cv))
            elif k.startswith('wmem?'):
                if v.get('null'): setattr(X.a, pn, 0); args.append(None); continue
                b = bytes((17 * i + 3) & 255 for i in range(v['n']))
                a = arena(pn, 2).place(len(b), case['_end'])
                poke(a, b); X.add(a, b); setattr(X.a, pn, a); args.append(ctypes.c_void_p(a))
            elif k.startswith('view[]'):
                n = case[k.split(':')[1]]
                arr = arena(pn, 2); a = arr.place(16 * n, True, 16)
                for i in range(n): poke(a + 16 * i, struct.pack('<Qii', 0x1111 * (i + 1), i + 5, 0))
                setattr(X.a, pn, P(False, [V(0x1111 * (i + 1), i + 5) for i in range(n)])); s.keep.append((pn, (a, n), 'arr'))
                args.append(ctypes.c_void_p(a))
            elif k == 'char':
                x = v - 256 if v > 127 else v
                setattr(X.a, pn, x); args.append(ctypes.c_byte(x))
            else:
                setattr(X.a, pn, v); args.append(CT_[k](v))
        return args

    def after(s, rv, X):
        X.finish()
        k = s.c.ret
        if k == 'view': X.r = V(rv.data or 0, rv.size)
        elif k == 'char': X.r = rv[0] - 256 if rv[0] > 127 else rv[0]
        elif k == 'ptr': X.r = rv or 0
        elif k == 'void': X.r = None
        else: X.r = rv
        for pn, cv, t in s.keep:
            if t == 'view': w = V(cv.data or 0, cv.size)
            elif t == 'char': w = cv.value
            elif t == 'arr':
                w = []
                for i in range(cv[1]):
                    d_, z_, _ = struct.unpack('<Qii', peek(cv[0] + 16 * i, 16)); w.append(V(d_, z_))
            setattr(X.n, pn, P(False, w))

    def prepare(s, case):
        X = CX()
        args = s.build(case, X)
        if s.c.pre:
            for c in s.c.pre(X):
                if not c: return None
        return X, args

    def call(s, args): return s.fn(*args)

    def judge(s, X, rv, prop):
        """labels of violated postconditions of the property"""
        s.after(rv, X)
        bad = []
        for props, label, cond in (s.c.post(X) if s.c.post else []):
            if prop in props.split() and not cond: bad.append(label)
        if s.c.writes is None and prop == s.c.frame_prop() and not X.frame(lambda k: True): bad.append('memory is unchanged')
        return bad

def jsonable(c):
    if isinstance(c, dict): return {k: jsonable(v) for k, v in c.items()}
    if isinstance(c, (bytes, bytearray)): return {'hex': bytes(c).hex(), 'text': repr(bytes(c))}
    if isinstance(c, (list, tuple)): return [jsonable(x) for x in c]
    return c
def unjson(c):
    if isinstance(c, dict):
        if set(c) == {'hex', 'text'}: return bytes.fromhex(c['hex'])
        return {k: unjson(v) for k, v in c.items()}
    if isinstance(c, list): return [unjson(x) for x in c]
    return c

def shows(X, c):
    def f(v):
        if isinstance(v, P): return 'null' if v.null else f(v.v)
        if isinstance(v, list): return [f(x) for x in v]
        if isinstance(v, V): return 'invalid' if not v.data else '{%#x, %d}' % (v.data, v.size)
        return repr(v)
    return {'result': f(X.r), 'in': {k: f(v) for k, v in X.a.__dict__.items()}, 'out': {k: f(v) for k, v in X.n.__dict__.items()}}

def attempt(runner, case, prop, shared=None, idx=0):
    """None, or (kind, labels, details)"""
    if hasattr(runner, 'attempt'): return runner.attempt(case, prop)
    pr = runner.prepare(case)
    if pr is None: return None
    X, args = pr
    rv = runner.call(args)
    bad = runner.judge(X, rv, prop)
    if bad: return ('post', bad, shows(X, runner.c))
    return None

def guarded(f, timeout=10):
    """run f() in a forked child; (status, value)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_RDWR); os.dup2(dn, 1); os.dup2(dn, 2)
            try: v = f()
            except Exception as e:
                import traceback
                v = {'exception': traceback.format_exc(limit=-3)}
            os.write(w, json.dumps(v).encode()); os.close(w)
        finally: os._exit(0)
    os.close(w)
    t0 = time.time(); buf = b''
    import select
    st = None
    while True:
        rl, _, _ = select.select([r], [], [], 0.05)
        if rl:
            b = os.read(r, 65536)
            if not b: break
            buf += b
        elif time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL); st = 'hang'; break
    os.close(r)
    _, ws = os.waitpid(pid, 0)
    if st == 'hang': return 'hang', None
    if os.WIFSIGNALED(ws): return 'crash', signal.Signals(os.WTERMSIG(ws)).name
    try: return 'ok', json.loads(buf.decode())
    except Exception: return 'error', None

def search(make_runner, prop, start, count, deadline, chunk=4000):
    """tries cases start.. ; returns a failure record or None; tried count"""
    shared = mmap.mmap(-1, 16)
    i = start; end = start + count; tried = 0
    while i < end and time.time() < deadline:
        hi = min(end, i + chunk)
        def work(lo=i, hi=hi):
            runner = make_runner()
            for k in range(lo, hi):
                if time.time() > deadline: return {'done': k}
                case = runner.case(k)
                shared[0:8] = struct.pack('<Q', k)
                f = attempt(runner, case, prop)
                if f: return {'case': k, 'kind': f[0], 'labels': f[1], 'details': f[2]}
            return {'done': hi}
        st, v = guarded(work, timeout=max(8, min(max(20, chunk // 100), deadline - time.time() + 8)))
        k = struct.unpack('<Q', shared[0:8])[0]
        if st == 'ok' and v and 'case' in v:
            v['tried'] = tried + v['case'] - i + 1
            return v, tried
        if st == 'ok' and v and 'done' in v: tried += v['done'] - i; i = v['done'] if v['done'] > i else hi; continue
        if st in ('crash', 'hang'):
            # confirm on its own
            def one(k=k):
                runner = make_runner()
                f = attempt(runner, runner.case(k), prop)
                return {'ok': not f}
            st2, v2 = guarded(one, timeout=10)
            if st2 in ('crash', 'hang'):
                return {'case': k, 'kind': st2, 'labels': ['the call %s' % ('crashed: %s' % v2 if st2 == 'crash' else 'did not return')], 'details': {}, 'tried': tried + k - i}, tried
            if st == 'hang':
                chunk = max(50, chunk // 4); i = k + 1; continue
            i = k + 1; continue
        return {'error': str(v)}, tried
    return None, tried
