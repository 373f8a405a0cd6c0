"""Path-wise symbolic execution of the clang AST: generates and discharges proof obligations."""
import z3, os, time
from .sym import *
from .cast import CT, Node, BOOL, INT, CHAR, UCHAR, ULONG, VOID
from . import theory
from .theory import Theory, u8, s8

ADDR_MAX = 2**47          # user space
PTR_LIM = 2**64

class OPtr:
    """pointer to a typed object (cell) or a part of it"""
    __slots__ = ('cell', 'path')
    def __init__(s, cell, path=()): s.cell, s.path = cell, tuple(path)
    def __repr__(s): return '&c%s%s' % (s.cell, s.path)
class Fn:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __eq__(s, o): return isinstance(o, Fn) and o.name == s.name
    def __hash__(s): return hash(s.name)
class ArrMem:
    """an array of bytes that lives in flat memory"""
    __slots__ = ('addr', 'n')
    def __init__(s, addr, n): s.addr, s.n = addr, n
def asel(a, i):
    """element i of an array term, reading through stores"""
    i = Z(I(i))
    if z3.is_store(a):
        c = eq(i, a.arg(1))
        if c is True: return a.arg(2)
        r = asel(a.arg(0), i)
        return r if c is False else Ite(c, a.arg(2), r)
    if z3.is_K(a): return a.arg(0)
    return z3.Select(a, i)
def abase(a):
    while z3.is_store(a): a = a.arg(0)
    return a
class ArrV:
    """functional array; leaves: path -> z3 Array(Int,Int) ; elem: CT"""
    __slots__ = ('elem', 'leaves', 'n')
    def __init__(s, elem, leaves, n): s.elem, s.leaves, s.n = elem, leaves, n
    def get(s, i):
        if list(s.leaves) == [()]: return asel(s.leaves[()], i)
        out = {}
        for p, a in s.leaves.items(): out = set_path(out, p, asel(a, i), create=True)
        return out
    def put(s, i, v):
        return ArrV(s.elem, {p: z3.Store(a, Z(I(i)), Z(I(get_path(v, p)))) for p, a in s.leaves.items()}, s.n)

def get_path(v, path):
    for p in path:
        if isinstance(p, tuple) and p[0] == 'i': v = v.get(p[1])
        else: v = v[p]
    return v

def set_path(v, path, x, create=False):
    if not path: return x
    p = path[0]
    if isinstance(p, tuple) and p[0] == 'i':
        return v.put(p[1], set_path(v.get(p[1]), path[1:], x) if path[1:] else x)
    v = dict(v)
    v[p] = set_path(v.get(p, {}) if create else v[p], path[1:], x, create)
    return v

class Mem:
    __slots__ = ('base', 'log')
    def __init__(s, base, log=()): s.base, s.log = base, log
    def rd(s, a, upto=None):
        log = s.log if upto is None else s.log[:upto]
        return s._rd(I(a), log)
    def _rd(s, a, log):
        conds = []
        for j in range(len(log) - 1, -1, -1):
            u = log[j]
            k = u[0]
            if k == 'w':
                c = eq(a, u[1]); v = u[2]
            else:
                c = And(le(u[1], a), lt(a, add(u[1], u[2])))
                if c is False: continue
                if k == 'f': v = u[3]
                elif k == 'c': v = s._rd(add(sub(a, u[1]), u[3]), log[:j])
                elif k == 'h': v = u[3].rd(a)
                else: raise KeyError(k)
            if c is False: continue
            if c is True:
                r = v; break
            conds.append((c, v))
        else:
            r = s.base.rd(a)
        for c, v in reversed(conds): r = Ite(c, v, r)
        return r
    def upd(s, *u): return Mem(s.base, s.log + (u,))

class Region:
    __slots__ = ('lo', 'n', 'kind', 'writable', 'live', 'bid')
    def __init__(s, lo, n, kind, writable=False, live=True, bid=None):
        s.lo, s.n, s.kind, s.writable, s.live, s.bid = lo, n, kind, writable, live, bid
    def dead(s): return Region(s.lo, s.n, s.kind, s.writable, False, s.bid)

class St:
    __slots__ = ('pc', 'store', 'mem', 'env', 'regions', 'blocks', 'g', 'depth')
    def __init__(s):
        s.pc = []; s.store = {}; s.mem = None; s.env = {}; s.regions = {}; s.blocks = {}; s.g = {}; s.depth = 0
    def copy(s):
        t = St.__new__(St)
        t.pc = list(s.pc); t.store = dict(s.store); t.mem = s.mem; t.env = s.env
        t.regions = dict(s.regions); t.blocks = dict(s.blocks); t.g = dict(s.g); t.depth = s.depth
        return t
    def assume(s, c):
        c = B(c)
        if c is True: return
        if c is False: s.pc.append(z3.BoolVal(False)); return
        s.pc.append(c)

class Prover:
    def __init__(self, th):
        self.th = th
        self.s = None
        self.cache = {}
        self.known = {}            # id -> formula (kept alive so that ids stay unique)
        self.time = 0.0
        self.queries = 0
        self.timeout = 10000
        self.relevancy = int(os.environ['VF_REL']) if 'VF_REL' in os.environ else None
    def _solver(self):
        if self.s is None or self.ver != self.th.version:
            self.s = z3.Solver()
            self.s.set('auto_config', False)
            self.s.set('smt.mbqi', False)
            self.s.set('smt.random_seed', 0)
            if self.relevancy is not None: self.s.set('smt.relevancy', self.relevancy)
            for a in self.th.axioms: self.s.add(a)
            self.ver = self.th.version
        return self.s
    def check(self, fs, timeout=None):
        """'unsat' / 'sat' / 'unknown' of the conjunction"""
        fs2, ids = [], []
        known = self.known
        for f in fs:
            if f is True: continue
            i = f.get_id() if isinstance(f, z3.BoolRef) else None
            if i is None or i not in known:
                f = B(f)
                if f is False: return 'unsat'
                if f is True: continue
                i = f.get_id()
                known[i] = f
            fs2.append(f); ids.append(i)
        key = frozenset(ids)
        hit = self.cache.get(key)
        if hit is not None and (hit[0] != 'unknown' or hit[1] >= (timeout or self.timeout)) : return hit[0]
        s = self._solver()
        t0 = time.time()
        s.set('timeout', int(timeout or self.timeout))
        s.push()
        ctx, sv, add_ = s.ctx.ref(), s.solver, z3.Z3_solver_assert
        for f in fs2: add_(ctx, sv, f.ast)
        r = str(s.check())
        s.pop()
        self.time += time.time() - t0
        self.queries += 1
        if SLOWQ and time.time() - t0 > SLOWQ:
            import traceback
            print('Q %.1f %s %s' % (time.time() - t0, r, ' < '.join('%s:%d' % (q.name, q.lineno) for q in reversed(traceback.extract_stack(limit=8)[:-1]) if q.name not in ('check', 'valid', 'feasible', 'prove'))), flush=True)
        self.cache[key] = (r, timeout or self.timeout)
        return r
    def valid(self, pc, goal, timeout=None):
        goal = B(goal)
        if goal is True: return True
        if z3.is_expr(goal) and z3.is_and(goal) :
            return all(self.valid(pc, g, timeout) for g in goal.children())
        return self.check(list(pc) + [Not(goal)], timeout) == 'unsat'
    def feasible(self, pc, timeout=1500):
        return self.check(pc, timeout) != 'unsat'
    def model(self, pc, goal):
        s = self._solver()
        s.set('timeout', 2000)
        s.push()
        for f in pc: s.add(B(f) if not isinstance(B(f), bool) else z3.BoolVal(B(f)))
        g = B(Not(goal))
        s.add(g if not isinstance(g, bool) else z3.BoolVal(g))
        r = str(s.check())
        m = None
        try:
            if r in ('sat', 'unknown'): m = s.model()
            txt = '%s; %s' % (r, {str(d): str(m[d]) for d in m.decls() if d.arity() == 0 and '!' not in str(d)} if m is not None else s.reason_unknown())
        except z3.Z3Exception as e:
            txt = '%s (%s)' % (r, s.reason_unknown())
        s.pop()
        return txt

SLOWQ = float(os.environ.get('VF_SLOW', '0'))

def mergeable(a, b):
    if a is b: return True
    if isinstance(a, dict) and isinstance(b, dict):
        if 'va' in a or set(a) != set(b): return False
        if '#f' in a and isinstance(a['#f'], int) and isinstance(b['#f'], int) and a['#f'] != b['#f']: return False
        return '#f' in a or all(mergeable(a[k], b[k]) for k in a)
    plain = lambda v: isinstance(v, (bool, int)) or isinstance(v, z3.ExprRef)
    if not plain(a) or not plain(b): return False
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool): return a == b
    return True

class Obl:
    __slots__ = ('tag', 'name', 'where', 'ok', 'info')
    def __init__(s, tag, name, where, ok, info=''): s.tag, s.name, s.where, s.ok, s.info = tag, name, where, ok, info

class Budget(Exception): pass

class Ex:
    """One verification run of one function."""
    def __init__(self, tus, contracts=None, deadline=None):
        self.tus = tus
        self.th = Theory()
        self.pr = Prover(self.th)
        self.base = self.th.new_base('H')
        self.contracts = contracts or {}
        self.banned = set()
        self.used = set()          # contracts relied on
        self.trusted = set()       # extern models relied on
        self.obls = []
        self.record = True
        self.ncell = 0
        self.ctypes = {}
        self.hints = []
        self.anchors_ptr = []
        self.anchors_int = []
        self.cstrs = []            # (ptr term, len term)
        self.globals = {}
        self.models = {}
        self.opaque = {}
        self.deadline = deadline
        self.tier = 1
        self.stack = []
        self.reads = None
        self.loops = 0
        self.notes = set()
        self.pathcount = 0
        self.where = None

    # ---------- obligations
    def oblige(self, st, cond, tag, name, node=None):
        cond = B(cond)
        if not self.record:
            st.assume(cond); return
        if self.deadline and time.time() > self.deadline: raise Budget('time budget of this function is used up')
        ok = self.pr.valid(st.pc, cond)
        where = '%s:%s' % (self.stack[-1].name if self.stack else '?', getattr(node, 'line', '?'))
        info = '' if ok else self.pr.model(st.pc, cond)
        self.obls.append(Obl(tag, name, where, ok, info))
        if not ok: st.assume(cond)

    def unsupported(self, why, node=None):
        raise Unsupported('%s (%s:%s)' % (why, self.stack[-1].name if self.stack else '?', getattr(node, 'line', '?')))

    def prove(self, st, c, timeout=None): return self.pr.valid(st.pc, c, timeout or 3000)
    def feasible(self, st): return self.pr.feasible(st.pc)

    # ---------- cells
    def new_cell(self, st, v, ty):
        self.ncell += 1
        self.ctypes[self.ncell] = ty
        st.store[self.ncell] = v
        return self.ncell

    def fresh(self, st, ty, name='v'):
        """an arbitrary value of a type (pointers: arbitrary addresses)"""
        if ty.k == 'bool': return fresh_bool(name)
        if ty.k == 'int':
            v = fresh_int(name)
            st.assume(z3.And(v >= ty.lo, v <= ty.hi)); return v
        if ty.k == 'ptr':
            v = fresh_int(name)
            st.assume(z3.And(v >= 0, v < PTR_LIM)); return v
        if ty.k == 'struct':
            return {n: self.fresh(st, t, name + '.' + n) for n, t in self.fields(ty)}
        if ty.k == 'float': return self.fresh_float(st, ty, name)
        if ty.k == 'array':
            return self.fresh_array(st, ty, name)
        if ty.k == 'void': return None
        raise Unsupported('fresh value of ' + repr(ty))

    def leaf_types(self, ty):
        if ty.k == 'struct':
            for n, t in self.fields(ty):
                for p, lt_ in self.leaf_types(t): yield (n,) + p, lt_
        else: yield (), ty

    def fresh_array(self, st, ty, name, zero=False):
        lv = {}
        for p, t in self.leaf_types(ty.to):
            if t.k not in ('int', 'bool', 'ptr'): raise Unsupported('array of ' + repr(ty))
            lv[p] = z3.K(z3.IntSort(), z3.IntVal(0)) if zero else z3.Array(fresh_name(name), z3.IntSort(), z3.IntSort())
        return ArrV(ty.to, lv, ty.n)

    def fields(self, ty):
        for t in self.tus:
            if ty.name in t.records: return t.fields(ty)
        raise Unsupported('record ' + ty.name)

    def sizeof(self, ty): return self.tus[0].sizeof(ty) if ty.k != 'struct' else self._tu_of(ty).sizeof(ty)
    def _tu_of(self, ty):
        for t in self.tus:
            if ty.name in t.records: return t
        raise Unsupported('record ' + ty.name)
    def offsetof(self, ty, field):
        off = 0
        for n, t in self.fields(ty):
            a = self._tu_of(ty).alignof(t)
            off = (off + a - 1) // a * a
            if n == field: return off
            off += self.sizeof(t)
        raise Unsupported('field ' + field)

    def func(self, name):
        for t in self.tus:
            if name in t.funcs and t.funcs[name].file and not t.funcs[name].file.startswith('/usr'): return t.funcs[name]
        return None

    # ---------- integer semantics
    def conv(self, st, v, ty, node=None):
        """C conversion of an integer value to an integer type"""
        if ty.k == 'bool': return B(v) if not isinstance(v, (OPtr, Fn)) else True
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)): return v
        if isinstance(v, int):
            if ty.lo <= v <= ty.hi: return v
            return (v - ty.lo) % (1 << ty.bits) + ty.lo
        rng = And(le(ty.lo, v), le(v, ty.hi))
        if self.prove(st, rng, 1000): return v
        if ty.bits == 8:
            lo = -128 if ty.signed else 0
            if self.prove(st, And(le(-128, v), le(v, 255)), 1000):
                return s8(v) if ty.signed else u8(v)
        return simp((v - ty.lo) % (1 << ty.bits) + ty.lo)

    def wrapu(self, st, v, ty):
        """unsigned result of an arithmetic operation"""
        if isinstance(v, int): return v % (1 << ty.bits)
        if self.prove(st, And(le(0, v), le(v, ty.hi)), 1000): return v
        m = 1 << ty.bits
        if self.prove(st, And(le(-m, v), lt(v, 2 * m)), 1000):
            return z3.If(v < 0, v + m, z3.If(v >= m, v - m, v))
        return simp(v % m)

    def arith(self, st, op, a, b, ty, node):
        if isinstance(a, (OPtr, Fn)) or isinstance(b, (OPtr, Fn)): self.unsupported('arithmetic on object pointer', node)
        a, b = I(a), I(b)
        if op in ('+', '-', '*'):
            r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
            if not ty.signed: return self.wrapu(st, r, ty)
            self.oblige(st, And(le(ty.lo, r), le(r, ty.hi)), 'safe', 'no signed overflow in %s' % op, node)
            return r
        if op in ('/', '%'):
            self.oblige(st, ne(b, 0), 'safe', 'no division by zero', node)
            if ty.signed: self.oblige(st, Not(And(eq(a, ty.lo), eq(b, -1))), 'safe', 'no division overflow', node)
            if isinstance(a, int) and isinstance(b, int):
                if b == 0: return 0
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == '/' else a - q * b
            if isinstance(b, int) and b > 0:
                if self.prove(st, ge(a, 0), 1000): q = fdiv(a, b)
                else: q = z3.If(a >= 0, a / b, -((-a) / b))
                return q if op == '/' else sub(a, mul(q, b))
            if self.prove(st, And(ge(a, 0), gt(b, 0)), 1000):
                q = simp(Z(a) / Z(b))
                return q if op == '/' else simp(Z(a) % Z(b))
            self.unsupported('division by a variable', node)
        if op in ('<<', '>>'):
            if not isinstance(b, int): 
                self.unsupported('shift by a variable', node)
            self.oblige(st, And(le(0, b), lt(b, ty.bits)), 'safe', 'shift amount in range', node)
            if op == '>>': return fdiv(a, 1 << b)
            r = mul(a, 1 << b)
            if not ty.signed: return self.wrapu(st, r, ty)
            self.oblige(st, And(le(0, a), le(r, ty.hi)), 'safe', 'no overflow in <<', node)
            return r
        if op in ('&', '|', '^'): return self.bitop(st, op, a, b, ty, node)
        self.unsupported('operator ' + op, node)

    def bitand_const(self, a, m, ty):
        m &= (1 << ty.bits) - 1
        if isinstance(a, int): 
            r = a & m
            return r if not ty.signed or r <= ty.hi else r - (1 << ty.bits)
        out = 0; i = 0
        while m >> i:
            if not (m >> i) & 1: i += 1; continue
            j = i
            while (m >> j) & 1: j += 1
            if j == ty.bits and ty.signed: t = mul(fdiv(a, 1 << i), 1 << i)      # sign bit run
            elif j == ty.bits: t = mul(fdiv(a, 1 << i), 1 << i)
            else: t = mul(fmod(fdiv(a, 1 << i), 1 << (j - i)), 1 << i)
            out = add(out, t); i = j
        return out

    def bitop(self, st, op, a, b, ty, node):
        if isinstance(a, int) and isinstance(b, int):
            r = a & b if op == '&' else a | b if op == '|' else a ^ b
            return self.conv(st, r, ty)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            an = self.bitand_const(a, b, ty)
            if op == '&': return an
            if op == '|': return sub(add(a, b), an)
            return sub(add(a, b), mul(2, an))
        # 0/1 operands
        one = And(le(0, a), le(a, 1), le(0, b), le(b, 1))
        if self.prove(st, one, 1000):
            ba, bb = B(ne(a, 0)), B(ne(b, 0))
            if op == '&': return I(And(ba, bb))
            if op == '|': return I(Or(ba, bb))
            return I(Not(Iff(ba, bb)))
        if op in ('|', '^'):
            for k in (1, 2, 4, 8, 16, 32):
                for x, y in ((a, b), (b, a)):
                    if self.prove(st, And(eq(fmod(x, 1 << k), 0), le(0, x), le(0, y), lt(y, 1 << k)), 1000): return add(x, y)
        self.unsupported('bit operation on two variables', node)

    # ---------- pointers and memory
    def access(self, st, a, n, write, node):
        """the n bytes at address a must lie in one live region; returns it (None in trial mode if unknown)"""
        if isinstance(a, int) and a == 0:
            if isinstance(n, int) and n == 0: return None
        if isinstance(a, (OPtr, Fn)): self.unsupported('byte access to a typed object', node)
        cands = [r for r in st.regions.values() if r.live and (r.writable or not write)]
        fits = lambda r: And(le(r.lo, a), le(add(a, n), add(r.lo, r.n)))
        if not self.record and not write: return None
        def score(r):
            return 0 if not isinstance(a, int) and not isinstance(r.lo, int) and _occurs(r.lo, a) else 1
        cands.sort(key=score)
        for r in cands:
            if self.prove(st, Or(fits(r), le(n, 0)) if not (isinstance(n, int) and n > 0) else fits(r), 2000):
                if self.record: self.obls.append(Obl('safe', '%s of %s bytes stays inside its object' % ('write' if write else 'read', n if isinstance(n, int) else 'n'),
                                     '%s:%s' % (self.stack[-1].name if self.stack else '?', getattr(node, 'line', '?')), True))
                return r
        if not self.record: return None
        self.oblige(st, Or(le(n, 0), [fits(r) for r in cands]), 'safe', '%s of memory stays inside a live%s object' % ('write' if write else 'read', ' writable' if write else ''), node)
        return None

    def note_write(self, st, a, n, region, node):
        """writes into the header of a buffer block make the header invalid"""
        self.wlog(region)
        for bid, b in list(st.blocks.items()):
            if not b['hdr']: continue
            if region is not None and region.kind != 'block' and self.record: continue
            lo, hi = b['addr'], add(b['addr'], b['hsize'])
            if not b['alive']: continue
            if self.prove(st, Or(le(n, 0), ge(a, hi), le(add(a, n), lo)), 2000): continue
            if not self.record and region is None: continue
            b = dict(b); b['hdr'] = False
            st.blocks[bid] = b

    def wlog(self, region):
        if self.wset is not None: self.wset.append(region)
    wset = None

    def rd_byte(self, st, a, ty, node):
        self.access(st, a, 1, False, node)
        v = st.mem.rd(a)
        if not isinstance(a, int) : st.assume(self.th.MARK(Z(a)))
        if isinstance(v, int): return v if ty.signed else v % 256
        return v if ty.signed else u8(v)

    def wr_byte(self, st, a, v, ty, node):
        r = self.access(st, a, 1, True, node)
        self.note_write(st, a, 1, r, node)
        v = I(v)
        v = s8(v) if not (ty.k == 'int' and ty.signed) else v
        st.mem = st.mem.upd('w', I(a), v)

    def load(self, st, lv, node=None):
        k = lv[0]
        if k == 'c':
            _, cell, path, ty = lv
            v = st.store.get(cell)
            if v is None: self.unsupported('use of a dead or unset object', node)
            for p in path:
                if isinstance(p, tuple) and p[0] == 'i': self.idx_check(st, v, p[1], node); v = v.get(p[1])
                else:
                    if not isinstance(v, dict): self.unsupported('member of non-struct', node)
                    v = v[p]
            if ty is not None and ty.k == 'bool' and z3.is_expr(v) and not z3.is_bool(v): v = v != 0
            if isinstance(v, Undef):
                self.oblige(st, False, 'safe', 'read of an uninitialised variable', node)
                v = self.fresh(st, ty if ty is not None else self.ctypes[cell], 'undef')
            return v
        if k == 'm':
            _, a, ty = lv
            return self.load_mem(st, a, ty, node)
        self.unsupported('load ' + k, node)

    def load_mem(self, st, a, ty, node):
        if ty.k in ('int', 'bool'):
            n = self.sizeof(ty)
            if n == 1:
                v = self.rd_byte(st, a, ty if ty.k == 'int' else UCHAR, node)
                return B(ne(v, 0)) if ty.k == 'bool' else v
            self.oblige(st, eq(fmod(a, n), 0), 'safe', 'aligned access', node)
            self.access(st, a, n, False, node)
            v = 0
            for i in range(n): v = add(v, mul(u8(st.mem.rd(add(a, i))), 1 << (8 * i)))
            return self.conv(st, v, ty)
        if ty.k == 'array': return ArrMem(a, ty.n)
        self.unsupported('load of %r from memory' % ty, node)

    def idx_check(self, st, arr, i, node):
        if isinstance(arr, ArrV) and arr.n is not None:
            self.oblige(st, And(le(0, i), lt(i, arr.n)), 'safe', 'array index in bounds', node)

    def store_lv(self, st, lv, v, node=None):
        k = lv[0]
        if k == 'c':
            _, cell, path, ty = lv
            if ('ro', cell) in st.g: self.oblige(st, False, 'safe', 'write to an object that must not be modified', node)
            cur = st.store.get(cell)
            x = cur
            for p in path:
                if isinstance(p, tuple) and p[0] == 'i': self.idx_check(st, x, p[1], node); x = x.get(p[1])
                else:
                    if x is None or isinstance(x, Undef): x = {}
                    x = x.get(p)
            if isinstance(v, ArrMem) and ty is not None and ty.k == 'array': self.unsupported('array assignment', node)
            st.store[cell] = set_path(cur if isinstance(cur, (dict, ArrV)) else {}, path, v, create=True) if path else v
            return
        if k == 'm':
            _, a, ty = lv
            if ty.k in ('int', 'bool'):
                n = self.sizeof(ty)
                if n == 1: return self.wr_byte(st, a, v, ty, node)
                self.oblige(st, eq(fmod(a, n), 0), 'safe', 'aligned access', node)
                r = self.access(st, a, n, True, node)
                self.note_write(st, a, n, r, node)
                for i in range(n): st.mem = st.mem.upd('w', add(a, i), s8(fmod(fdiv(I(v), 1 << (8 * i)), 256)))
                return
        self.unsupported('store to %s' % (lv[-1],), node)

    def block_at(self, st, a, node):
        """block whose header is at address a"""
        if isinstance(a, int):
            self.oblige(st, False, 'safe', 'null pointer dereference', node)
            st.assume(False)
            return None
        al = [(i, b) for i, b in st.blocks.items()]
        for i, b in al:
            if b['alive'] and not isinstance(b['addr'], int) and b['addr'].eq(a): return i
        for i, b in al:
            if b['alive'] and self.prove(st, eq(a, b['addr']), 2000): return i
        return None

    def hdr_lv(self, st, a, node):
        bid = self.block_at(st, a, node)
        if bid is None:
            self.oblige(st, False, 'safe', 'the pointer refers to a live buffer header', node)
            return self.dummy_block(st)
        b = st.blocks[bid]
        if not b['hdr']:
            if b.get('raw'):      # fresh memory: writing fields makes it a header
                self.oblige(st, And(ge(b['n'], b['hsize']), eq(fmod(b['addr'], 8), 0)), 'safe', 'the memory of a new buffer is aligned and holds its header', node)
                b = dict(b); b['hdr'] = True; b['raw'] = False
                st.blocks = dict(st.blocks); st.blocks[bid] = b
                st.store[b['cell']] = {n: self.undef_struct(t) if t.k == 'struct' else Undef() for n, t in self.fields(CT('struct', name='strbuf_t')) if t.k != 'array'}
            else:
                self.oblige(st, False, 'safe', 'the buffer header was overwritten', node)
                return self.dummy_block(st)
        return b

    def dummy_block(self, st):
        st.assume(False)
        ty = CT('struct', name='strbuf_t')
        v = {n: self.fresh(st, t, n) for n, t in self.fields(ty) if t.k != 'array'}
        return {'cell': self.new_cell(st, v, ty), 'addr': fresh_int('dummy'), 'hsize': 24, 'alive': True, 'hdr': True}

    def dummy_lv(self, st, ty):
        st.assume(False)
        if ty.k in ('void', 'func', 'array'): ty = CHAR
        return ('c', self.new_cell(st, self.fresh(st, ty), ty), (), ty)

    def deref(self, st, p, ty, node):
        """lvalue of *p for p of type ty*"""
        if isinstance(p, OPtr):
            cty = self.path_type(p)
            if cty is not None and ty.k != 'void' and cty != ty and not (cty.k == 'array' and ty.k != 'array'):
                if not (cty.k in ('int', 'bool') and ty.k in ('int', 'bool') and self.sizeof(cty) == self.sizeof(ty)):
                    if not (cty.k == ty.k == 'ptr' ) :
                        self.unsupported('object of type %r accessed as %r' % (cty, ty), node)
                elif cty.k != ty.k or cty.signed != ty.signed:
                    self.unsupported('object of type %r accessed as %r' % (cty, ty), node)
            if p.cell not in st.store:
                self.oblige(st, False, 'safe', 'pointer to an object that is still alive', node); return self.dummy_lv(st, ty)
            return ('c', p.cell, p.path, ty)
        if isinstance(p, Fn): self.unsupported('dereference of function pointer', node)
        if isinstance(p, int) and p == 0:
            self.oblige(st, False, 'safe', 'null pointer dereference', node); return self.dummy_lv(st, ty)
        if ty.k == 'struct' and ty.name == 'strbuf_t':
            b = self.hdr_lv(st, p, node)
            return ('c', b['cell'], (), ty)
        if ty.k in ('int', 'bool', 'array'): return ('m', p, ty)
        self.unsupported('dereference of %r at a raw address' % ty, node)

    def path_type(self, p):
        t = self.ctypes.get(p.cell)
        for x in p.path:
            if t is None: return None
            if isinstance(x, tuple) and x[0] == 'i': t = t.to
            elif t.k == 'struct':
                t = dict(self.fields(t)).get(x)
            else: return None
        return t

    def pcmp(self, st, op, a, b, node):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn): same = a.name == b.name
            elif isinstance(a, int) or isinstance(b, int): same = False
            else: 
                f, o = (a, b) if isinstance(a, Fn) else (b, a)
                same = eq(o, self.fn_addr(f))
            if op == '==': return same
            if op == '!=': return Not(same)
            self.unsupported('ordering of function pointers', node)
        if isinstance(a, OPtr) or isinstance(b, OPtr):
            if isinstance(a, OPtr) and isinstance(b, OPtr):
                if a.cell == b.cell and len(a.path) == len(b.path):
                    if a.path == b.path:
                        return op in ('==', '<=', '>=')
                    if a.path and b.path and a.path[:-1] == b.path[:-1] and isinstance(a.path[-1], tuple) and isinstance(b.path[-1], tuple):
                        return cmp(op, a.path[-1][1], b.path[-1][1])
                if op == '==': return False
                if op == '!=': return True
            else:
                o = b if isinstance(a, OPtr) else a
                if isinstance(o, int) and o == 0 or True:
                    if op == '==': return False
                    if op == '!=': return True
            self.unsupported('comparison of object pointers', node)
        return cmp(op, a, b)

    def fn_addr(self, f):
        key = ('fnaddr', f.name)
        if key not in self.globals:
            c = z3.Int('FN_' + f.name)
            self.th.axiom(z3.And(c > 0, c < ADDR_MAX))
            for k, o in self.globals.items():
                if k[0] == 'fnaddr': self.th.axiom(c != o)
            self.globals[key] = c
        return self.globals[key]

    def padd(self, st, p, i, elem, node):
        """pointer + integer"""
        if isinstance(p, OPtr):
            i = I(i)
            if isinstance(i, int) and i == 0: return p
            if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'i':
                return OPtr(p.cell, p.path[:-1] + (('i', add(p.path[-1][1], i)),))
            self.unsupported('arithmetic on a pointer to an object', node)
        if isinstance(p, Fn): self.unsupported('arithmetic on a function pointer', node)
        r = add(p, mul(i, self.sizeof(elem) if elem.k not in ('void', 'func') else 1))
        self.oblige(st, And(le(0, r), lt(r, PTR_LIM)), 'safe', 'pointer arithmetic does not wrap around', node)
        return r

    # ---------- expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + n.kind, None)
        if m is None: self.unsupported('expression ' + str(n.kind), n)
        return m(n, st)

    def eval1(self, n, st):
        r = self.eval(n, st)
        return r

    def ty(self, n): return self.tu.nty(n)
    @property
    def tu(self): return self.stack[-1].tu if self.stack else self.tus[0]

    def e_ParenExpr(self, n, st): return self.eval(n.inner[0], st)
    e_ConstantExpr = e_ParenExpr
    e_GenericSelectionExpr = e_ParenExpr
    def e_ExprWithCleanups(self, n, st): return self.eval(n.inner[0], st)
    def e_IntegerLiteral(self, n, st): return [(st, int(n.j['value']))]
    def e_CharacterLiteral(self, n, st): return [(st, int(n.j['value']))]
    def e_ImplicitValueInitExpr(self, n, st): return [(st, self.zero(st, self.ty(n)))]
    def e_PredefinedExpr(self, n, st): return [(st, self.th.literal(b'?', self.base))]

    def zero(self, st, ty):
        if ty.k == 'bool': return False
        if ty.k in ('int', 'ptr'): return 0
        if ty.k == 'struct': return {n: self.zero(st, t) for n, t in self.fields(ty)}
        if ty.k == 'float': return self.float_const(ty, 0)
        if ty.k == 'array': return self.fresh_array(st, ty, 'arr', zero=True)
        raise Unsupported('zero of ' + repr(ty))

    def e_StringLiteral(self, n, st):
        return [(st, self.literal_addr(n, st))]
    def literal_addr(self, n, st):
        import ast
        s = n.j['value']
        i = s.index('"')
        try: bs = ast.literal_eval('b' + _cesc(s[i:]))
        except Exception: self.unsupported('string literal', n)
        a = self.th.literal(bs, self.base)
        rid = 'lit%d' % a.get_id()
        if rid not in st.regions:
            st.regions[rid] = Region(a, len(bs) + 1, 'lit')
            # a literal does not overlap writable memory
            for r in list(st.regions.values()):
                if r.writable: st.assume(Or(le(add(a, len(bs) + 1), r.lo), le(add(r.lo, r.n), a)))
            if b'\0' not in bs and not any(isinstance(p, z3.ExprRef) and p.eq(a) for p, _ in self.cstrs): self.cstrs.append((a, len(bs)))
        return a

    def e_DeclRefExpr(self, n, st):
        rd = n.j['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            for t in self.tus:
                if rd['name'] in t.enums: return [(st, t.enums[rd['name']])]
        if rd['kind'] == 'FunctionDecl': return [(st, Fn(rd['name']))]
        lv = self.lval_decl(n, st)
        return [(st, self.load(st, lv, n))]

    def lval_decl(self, n, st):
        rd = n.j['referencedDecl']
        cell = st.env.get(rd['id'])
        if cell is None: cell = self.global_cell(rd, st, n)
        return ('c', cell, (), self.ctypes[cell])

    def global_cell(self, rd, st, n):
        name = rd['name']
        if name in st.g.get('globals', {}): return st.g['globals'][name]
        for t in self.tus:
            if name in t.globals:
                gname, ty, init = t.globals[name]
                if init is None: v = None
                else: v = None
                if name in self.models:
                    v = self.models[name](self, st)
                elif ty.k in ('int', 'bool', 'ptr', 'struct'): v = self.fresh(st, ty, name)
                else: self.unsupported('global ' + name, n)
                c = self.new_cell(st, v, ty)
                st.g['globals'] = dict(st.g.get('globals', {})); st.g['globals'][name] = c
                return c
        self.unsupported('global ' + name, n)

    def e_ImplicitCastExpr(self, n, st): return self.cast(n, st)
    def e_CStyleCastExpr(self, n, st): return self.cast(n, st)

    def cast(self, n, st):
        ck = n.j.get('castKind'); sub_ = n.inner[-1]
        ty = self.ty(n)
        if ck == 'LValueToRValue':
            return [(s, self.load(s, lv, n)) for s, lv in self.lval(sub_, st)]
        if ck == 'ArrayToPointerDecay':
            if sub_.kind == 'StringLiteral': return self.eval(sub_, st)
            out = []
            for s, lv in self.lval(sub_, st):
                out.append((s, self.decay(s, lv, n)))
            return out
        if ck == 'FunctionToPointerDecay': return self.eval(sub_, st)
        if ck == 'ToVoid': return [(s, None) for s, v in self.eval(sub_, st)]
        if ck == 'NullToPointer': return [(s, 0) for s, v in self.eval(sub_, st)]
        rs = self.eval(sub_, st)
        if ck in ('NoOp', 'BitCast', 'AtomicToNonAtomic', 'BuiltinFnToFnPtr'): return rs
        out = []
        for s, v in rs:
            if ck == 'IntegralCast': v = self.conv(s, v, ty, n)
            elif ck in ('IntegralToBoolean', 'PointerToBoolean'):
                v = True if isinstance(v, (OPtr, Fn)) else B(v)
            elif ck == 'PointerToIntegral':
                if isinstance(v, (OPtr, Fn)): self.unsupported('object pointer to integer', n)
                v = self.conv(s, v, ty, n)
            elif ck == 'IntegralToPointer': pass
            elif ck == 'BooleanToSignedIntegral': v = I(v)
            elif ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean'):
                v = self.float_cast(s, ck, v, self.ty(sub_), ty, n)
            else: self.unsupported('cast ' + str(ck), n)
            out.append((s, v))
        return out

    def decay(self, st, lv, n):
        if lv[0] == 'm': return lv[1]
        _, cell, path, ty = lv
        v = get_path(st.store[cell], path) if not (ty is not None and ty.k == 'array' and path and path[-1] == 'cstr') else None
        if path and path[-1] == 'cstr' and v is None:
            for b in st.blocks.values():
                if b['cell'] == cell:
                    return add(b['addr'], b['hsize'])
            self.unsupported('cstr of unknown buffer', n)
        if isinstance(v, ArrMem): return v.addr
        if isinstance(v, dict) and 'va' in v: return OPtr(cell, path)
        return OPtr(cell, path + (('i', 0),))

    # lvalues
    def lval(self, n, st):
        k = n.kind
        if k == 'ParenExpr' or k == 'GenericSelectionExpr': return self.lval(n.inner[0], st)
        if k == 'DeclRefExpr': return [(st, self.lval_decl(n, st))]
        if k == 'UnaryOperator' and n.j['opcode'] == '*':
            out = []
            for s, p in self.eval(n.inner[0], st):
                out.append((s, self.deref(s, p, self.ty(n), n)))
            return out
        if k == 'MemberExpr':
            f = n.j['name']; out = []
            if n.j.get('isArrow'):
                base = self.ty(n.inner[0]).to
                for s, p in self.eval(n.inner[0], st):
                    if base.k == 'struct' and base.name == 'strbuf_t' and f == 'cstr' and not isinstance(p, OPtr):
                        out.append((s, ('m', self.padd(s, p, self.offsetof(base, 'cstr'), CHAR, n), self.ty(n)))); continue
                    lv = self.deref(s, p, base, n)
                    out.append((s, ('c', lv[1], lv[2] + (f,), self.ty(n))))
                return out
            for s, lv in self.lval(n.inner[0], st):
                if lv[0] != 'c': self.unsupported('member of raw memory', n)
                out.append((s, ('c', lv[1], lv[2] + (f,), self.ty(n))))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for s, p in self.eval(n.inner[0], st):
                for s2, i in self.eval(n.inner[1], s):
                    if not (self.ty(n.inner[0]).k in ('ptr', 'array')): p, i = i, p
                    q = self.padd(s2, p, i, self.ty(n), n)
                    out.append((s2, self.deref(s2, q, self.ty(n), n)))
            return out
        if k == 'CompoundLiteralExpr':
            out = []
            for s, v in self.eval(n.inner[0], st):
                c = self.new_cell(s, v, self.ty(n))
                out.append((s, ('c', c, (), self.ty(n))))
            return out
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.j.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lval(n.inner[-1], st)
        # rvalue struct: call().member
        if self.ty(n).k == 'struct':
            out = []
            for s, v in self.eval(n, st):
                c = self.new_cell(s, v, self.ty(n))
                out.append((s, ('c', c, (), self.ty(n))))
            return out
        self.unsupported('lvalue ' + k, n)

    def e_MemberExpr(self, n, st):
        return [(s, self.load(s, lv, n)) for s, lv in self.lval(n, st)]
    def e_ArraySubscriptExpr(self, n, st):
        return [(s, self.load(s, lv, n)) for s, lv in self.lval(n, st)]

    def e_CompoundLiteralExpr(self, n, st):
        return self.eval(n.inner[0], st)

    def e_InitListExpr(self, n, st):
        ty = self.ty(n)
        if ty.k == 'struct':
            fs = self.fields(ty)
            items = [c for c in n.inner]
            acc = [(st, {})]
            for i, (fname, ft) in enumerate(fs):
                nxt = []
                for s, d in acc:
                    if i < len(items) and items[i].kind not in ('Empty',):
                        for s2, v in self.eval(items[i], s):
                            d2 = dict(d); d2[fname] = v; nxt.append((s2, d2))
                    else:
                        if ft.k == 'array' and ft.n is None: nxt.append((s, d)); continue
                        d2 = dict(d); d2[fname] = self.zero(s, ft); nxt.append((s, d2))
                acc = nxt
            return acc
        if ty.k == 'array':
            arr = self.fresh_array(st, ty, 'arr', zero=True)
            items = n.j.get('array_filler') or []
            filler = None
            its = n.inner
            if items:      # array_filler: [filler, explicit...]
                its = [self.tu._node(c) for c in items if c.get('kind')]
                its = [c for c in its if c.kind != 'ImplicitValueInitExpr']
            acc = [(st, arr)]
            for i, c in enumerate(its):
                acc = [(s2, a.put(i, v)) for s, a in acc for s2, v in self.eval(c, s)]
            return acc
        if len(n.inner) == 1: return self.eval(n.inner[0], st)
        self.unsupported('initialiser', n)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.j.get('name') not in ('sizeof', 'alignof', '_Alignof'): self.unsupported(n.j.get('name'), n)
        if 'argType' in n.j: t = self.tu.ctype(n.j['argType'])
        else: t = self.ty(n.inner[0])
        if n.j.get('name') != 'sizeof': return [(st, self._tu_of(t).alignof(t) if t.k == 'struct' else self.tu.alignof(t))]
        return [(st, self.sizeof(t))]

    def e_UnaryOperator(self, n, st):
        op = n.j['opcode']; sub_ = n.inner[0]
        if op == '&':
            out = []
            if sub_.kind == 'DeclRefExpr' and sub_.j['referencedDecl']['kind'] == 'FunctionDecl': return self.eval(sub_, st)
            # &a[i] and &p->m need no access
            for s, lv in self.addr_of(sub_, st):
                out.append((s, lv))
            return out
        if op == '*':
            t = self.ty(n)
            if t.k == 'func': return self.eval(sub_, st)
            return [(s, self.load(s, lv, n)) for s, lv in self.lval(n, st)]
        if op in ('++', '--'):
            out = []
            post = n.j.get('isPostfix')
            ty = self.ty(sub_)
            for s, lv in self.lval(sub_, st):
                v = self.load(s, lv, n)
                if ty.k == 'ptr': w = self.padd(s, v, 1 if op == '++' else -1, ty.to, n)
                elif ty.k == 'float': self.unsupported('++ on float', n)
                else:
                    r = add(v, 1 if op == '++' else -1)
                    if ty.k == 'bool': w = True if op == '++' else Not(B(v))
                    elif ty.signed and ty.bits >= 32:
                        self.oblige(s, And(le(ty.lo, r), le(r, ty.hi)), 'safe', 'no signed overflow in ' + op, n); w = r
                    elif ty.signed: w = self.conv(s, r, ty, n)
                    else: w = self.wrapu(s, r, ty)
                self.store_lv(s, lv, w, n)
                out.append((s, v if post else w))
            return out
        out = []
        for s, v in self.eval(sub_, st):
            if op == '!':
                if isinstance(v, (OPtr, Fn)): v = False
                elif self.ty(sub_).k == 'float': v = Not(self.float_nz(v))
                else: v = Not(B(v))
            elif op == '-':
                ty = self.ty(n)
                if ty.k == 'float': v = self.float_neg(v)
                else: v = self.arith(s, '-', 0, v, ty, n)
            elif op == '+': pass
            elif op == '~':
                ty = self.ty(n)
                r = sub(-1, I(v))
                v = r if ty.signed else add(r, 1 << ty.bits)
            elif op == '__extension__': pass
            else: self.unsupported('unary ' + op, n)
            out.append((s, v))
        return out

    def addr_of(self, n, st):
        k = n.kind
        if k == 'ParenExpr': return self.addr_of(n.inner[0], st)
        if k == 'UnaryOperator' and n.j['opcode'] == '*': return self.eval(n.inner[0], st)
        if k == 'ArraySubscriptExpr':
            out = []
            for s, p in self.eval(n.inner[0], st):
                for s2, i in self.eval(n.inner[1], s):
                    out.append((s2, self.padd(s2, p, i, self.ty(n), n)))
            return out
        out = []
        for s, lv in self.lval(n, st):
            if lv[0] == 'm': out.append((s, lv[1]))
            elif lv[2] and lv[2][-1] == 'cstr' and self.ctypes[lv[1]].k == 'struct' and self.ctypes[lv[1]].name == 'strbuf_t':
                out.append((s, self.decay(s, lv, n)))
            else:
                v = get_path(s.store[lv[1]], lv[2]) if lv[1] in s.store else None
                out.append((s, v.addr if isinstance(v, ArrMem) else OPtr(lv[1], lv[2])))
        return out

    def e_BinaryOperator(self, n, st):
        op = n.j['opcode']; L, R = n.inner
        if op == ',':
            return [r for s, _ in self.eval(L, st) for r in self.eval(R, s)]
        if op == '=':
            out = []
            # right operand first, then the location (unsequenced in C; the code under test does not depend on it)
            for s, v in self.eval(R, st):
                for s2, lv in self.lval(L, s):
                    self.store_lv(s2, lv, v, n)
                    out.append((s2, v))
            return out
        if op in ('&&', '||'): return self.shortcircuit(op, L, R, st)
        out = []
        for s, a in self.eval(L, st):
            for s2, b in self.eval(R, s):
                out.append((s2, self.binop(s2, op, a, b, self.ty(L), self.ty(R), self.ty(n), n)))
        return out

    def binop(self, s, op, a, b, ta, tb, tr, n):
        if ta.k == 'float' or tb.k == 'float':
            return self.float_bin(s, op, a, b, tr, n)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if ta.k == 'ptr' or tb.k == 'ptr': return self.pcmp(s, op, a, b, n)
            if op == '==': return eq(a, b)
            if op == '!=': return ne(a, b)
            return cmp(op, a, b)
        if ta.k == 'ptr' and tb.k == 'ptr':
            if op != '-': self.unsupported('pointer ' + op, n)
            if isinstance(a, OPtr) and isinstance(b, OPtr):
                if a.cell == b.cell and a.path[:-1] == b.path[:-1] and a.path and isinstance(a.path[-1], tuple): return sub(a.path[-1][1], b.path[-1][1])
                self.unsupported('pointer difference', n)
            if isinstance(a, OPtr) or isinstance(b, OPtr): self.unsupported('pointer difference', n)
            d = sub(a, b)
            z = self.sizeof(ta.to)
            return d if z == 1 else fdiv(d, z)
        if ta.k == 'ptr': return self.padd(s, a, b if op == '+' else sub(0, b), ta.to, n)
        if tb.k == 'ptr': return self.padd(s, b, a, tb.to, n)
        return self.arith(s, op, a, b, tr, n)

    def e_CompoundAssignOperator(self, n, st):
        op = n.j['opcode'][:-1]; L, R = n.inner
        out = []
        tl = self.ty(L)
        ct = self.tu.ctype(n.j['computeLHSType']) if 'computeLHSType' in n.j else tl
        cr = self.tu.ctype(n.j['computeResultType']) if 'computeResultType' in n.j else tl
        for s, b in self.eval(R, st):
            for s2, lv in self.lval(L, s):
                a = self.load(s2, lv, n)
                if tl.k == 'ptr': v = self.padd(s2, a, b if op == '+' else sub(0, b), tl.to, n)
                elif cr.k == 'float':
                    if tl.k != 'float': self.unsupported('mixed float assignment', n)
                    v = self.float_bin(s2, op, self.float_cast(s2, 'FloatingCast', a, tl, ct, n), b, cr, n)
                    v = self.float_cast(s2, 'FloatingCast', v, cr, tl, n)
                else:
                    a = self.conv(s2, a, ct, n) if ct.isint() else a
                    v = self.arith(s2, op, a, b, cr, n)
                    v = self.conv(s2, v, tl, n)
                self.store_lv(s2, lv, v, n)
                out.append((s2, v))
        return out

    def try_merge(self, st, cond, node):
        """evaluate node under cond without forking; returns the value or None if it forks or has effects"""
        s = st.copy()
        s.assume(cond)
        n0 = len(s.pc)
        nob = len(self.obls)
        rs = self.eval(node, s)
        if len(rs) != 1: 
            return None, rs, nob
        s2, v = rs[0]
        if s2.mem is not st.mem or any(s2.store.get(c) is not x for c, x in st.store.items()) or s2.blocks != st.blocks or s2.g != st.g:
            return None, rs, nob
        return (s2, v, n0), rs, nob

    def shortcircuit(self, op, L, R, st):
        out = []
        for s, a in self.eval(L, st):
            a = True if isinstance(a, (OPtr, Fn)) else (self.float_nz(a) if self.ty(L).k == 'float' else B(a))
            go = a if op == '&&' else Not(a)
            if go is False: out.append((s, op == '||')); continue
            if not isinstance(go, bool):
                if self.pr.valid(s.pc, Not(go), 500): out.append((s, op == '||')); continue
            m, rs, nob = self.try_merge(s, go, R)
            if m is not None:
                s2, v, n0 = m
                for c in s2.pc[n0:]: s.assume(Implies(go, c))
                s.regions = s2.regions
                for c, x in s2.store.items():
                    if c not in s.store: s.store[c] = x
                v = True if isinstance(v, (OPtr, Fn)) else (self.float_nz(v) if self.ty(R).k == 'float' else B(v))
                out.append((s, And(a, v) if op == '&&' else Or(a, v)))
                continue
            for s2, v in rs:
                v = True if isinstance(v, (OPtr, Fn)) else (self.float_nz(v) if self.ty(R).k == 'float' else B(v))
                out.append((s2, v))
            if go is not True:
                s3 = s.copy(); s3.assume(Not(go))
                if self.feasible(s3): out.append((s3, op == '||'))
        return out

    def e_ConditionalOperator(self, n, st):
        C, T, E = n.inner
        out = []
        for s, c in self.eval(C, st):
            c = True if isinstance(c, (OPtr, Fn)) else (self.float_nz(c) if self.ty(C).k == 'float' else B(c))
            if c is True: out += self.eval(T, s); continue
            if c is False: out += self.eval(E, s); continue
            if self.pr.valid(s.pc, c, 500): out += self.eval(T, s); continue
            if self.pr.valid(s.pc, Not(c), 500): out += self.eval(E, s); continue
            m1, r1, nob = self.try_merge(s, c, T)
            m2, r2, nob2 = self.try_merge(s, Not(c), E)
            if m1 is not None and m2 is not None:
                try:
                    v = self.ite(c, m1[1], m2[1])
                    for x in m1[0].pc[m1[2]:]: s.assume(Implies(c, x))
                    for x in m2[0].pc[m2[2]:]: s.assume(Implies(Not(c), x))
                    s.regions = {**m1[0].regions, **m2[0].regions}
                    for q in (m1[0], m2[0]):
                        for cc, x in q.store.items():
                            if cc not in s.store: s.store[cc] = x
                    out.append((s, v)); continue
                except Unsupported: pass
            out += r1 + r2
        return out

    def ite(self, c, a, b):
        if a is None and b is None: return None
        if isinstance(a, (OPtr, Fn, ArrMem, ArrV)) or isinstance(b, (OPtr, Fn, ArrMem, ArrV)):
            raise Unsupported('ite of pointers')
        if isinstance(a, dict):
            if 'va' in a: raise Unsupported('ite of va_list')
            if '#f' in a: return self.float_ite(c, a, b)
            return {k: self.ite(c, a[k], b[k]) for k in a}
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('ite of undef')
        return Ite(c, a, b)

    def e_StmtExpr(self, n, st):
        body = n.inner[0]
        items = body.inner
        states = [st]
        for i, x in enumerate(items):
            nxt = []
            last = i == len(items) - 1
            for s in states:
                if last and hasattr(self, 'e_' + str(x.kind)):
                    return [r for q in states for r in self.eval(x, q)]
                for s2, out in self.exec(x, s):
                    if out != 'next': self.unsupported('jump out of a statement expression', n)
                    nxt.append(s2)
            states = nxt
        return [(s, None) for s in states]

    def e_VAArgExpr(self, n, st):
        out = []
        for s, lv in self.lval(_strip(n.inner[0]), st):
            v = self.load(s, lv, n)
            if isinstance(v, OPtr):          # va_list parameter: pointer to the caller's list
                lv = ('c', v.cell, v.path, None); v = self.load(s, lv, n)
            if not (isinstance(v, dict) and 'va' in v): self.unsupported('va_arg', n)
            self.oblige(s, Not(v['dead']), 'safe', 'va_list is in a defined state', n)
            h = s.g['va'][v['va']]
            out += h(self, s, lv, v, self.ty(n), n)
        return out

    def e_OffsetOfExpr(self, n, st): self.unsupported('offsetof', n)

    # floats: provided by the mixin in floats.py
    def e_FloatingLiteral(self, n, st): return [(st, self.float_lit(n))]
    def float_lit(self, n): self.unsupported('floating point', n)
    def float_cast(self, s, ck, v, tf, tt, n): self.unsupported('floating point', n)
    def float_bin(self, s, op, a, b, tr, n): self.unsupported('floating point', n)
    def float_nz(self, v): raise Unsupported('floating point')
    def float_neg(self, v): raise Unsupported('floating point')
    def float_ite(self, c, a, b): raise Unsupported('floating point')
    def float_const(self, ty, v): raise Unsupported('floating point')
    def fresh_float(self, st, ty, name): raise Unsupported('floating point')

    # ---------- calls
    def e_CallExpr(self, n, st):
        callee, args = n.inner[0], n.inner[1:]
        out = []
        for s, f in self.eval(callee, st):
            acc = [(s, [])]
            if isinstance(f, Fn) and f.name in ('__builtin_va_start', '__builtin_va_end', '__builtin_va_copy', 'va_start', 'va_end', 'va_copy'):
                out += self.va_builtin(f.name, args, s, n); continue
            for a in args:
                nxt = []
                for s2, vs in acc:
                    for s3, v in self.eval(a, s2): nxt.append((s3, vs + [v]))
                acc = nxt
            for s2, vs in acc:
                out += self.call(f, vs, s2, n, [self.ty(a) for a in args])
        return out

    def va_builtin(self, name, args, st, n):
        name = name.replace('__builtin_', '')
        out = []
        def loc(a, s):
            a = _strip(a)
            rs = []
            for s2, lv in self.lval(a, s):
                v = s2.store.get(lv[1])
                if isinstance(v, OPtr): lv = ('c', v.cell, v.path, None)
                rs.append((s2, lv))
            return rs
        if name == 'va_start':
            for s, lv in loc(args[0], st):
                fr = s.g.get('varargs')
                if fr is None: self.unsupported('va_start', n)
                self.store_lv(s, ('c', lv[1], lv[2], None), {'va': fr, 'idx': 0, 'dead': False}, n)
                out.append((s, None))
        elif name == 'va_end':
            for s, lv in loc(args[0], st): out.append((s, None))
        else:
            for s, d in loc(args[0], st):
                for s2, q in loc(args[1], s):
                    v = self.load(s2, ('c', q[1], q[2], None), n)
                    self.oblige(s2, Not(v['dead']), 'safe', 'va_copy of a va_list in a defined state', n)
                    self.store_lv(s2, ('c', d[1], d[2], None), dict(v), n)
                    out.append((s2, None))
        return out

    def call(self, f, vs, st, n, tys):
        if isinstance(f, Fn):
            name = f.name
            from . import libc
            if name in self.models: return self.models[name](self, st, vs, n)
            if name in self.contracts and name not in self.banned:
                self.used.add(name)
                return self.contracts[name].apply(self, st, vs, n)
            fn = self.func(name)
            if fn is not None: return self.inline(fn, vs, st, n)
            if name in libc.MODELS:
                self.trusted.add(name)
                return libc.MODELS[name](self, st, vs, n)
            self.unsupported('call of unknown function ' + name, n)
        if not isinstance(f, (OPtr,)) and 'indirect' in self.models:
            return self.models['indirect'](self, st, f, vs, n)
        self.unsupported('indirect call', n)

    def inline(self, fn, vs, st, n, ret_store=False):
        if sum(1 for f in self.stack if f is fn) > 2 or len(self.stack) > 24: self.unsupported('recursion in ' + fn.name, n)
        env0 = st.env
        env = {}
        for (pn, pid, pt), v in zip(fn.params, vs):
            env[pid] = self.new_cell(st, v, pt)
        va0 = st.g.get('varargs')
        if fn.variadic and n is None and 'topva' in st.g:
            st.g = dict(st.g); st.g['varargs'] = st.g['topva']
        elif fn.variadic:
            self.va_pack(st, fn, vs[len(fn.params):], n)
        st.env = env
        self.stack.append(fn)
        try:
            res = self.exec(fn.body, st)
        finally:
            self.stack.pop()
        out = []
        for s, o in res:
            s.env = env0
            if va0 is not None or 'varargs' in s.g:
                s.g = dict(s.g); s.g['varargs'] = va0
            if o == 'next': out.append((s, None))
            elif isinstance(o, tuple) and o[0] == 'return': out.append((s, o[1]))
            else: self.unsupported('stray ' + str(o), n)
        return self.join(out) if self.merge and len(out) > 1 and n is not None else out

    def va_pack(self, st, fn, rest, n):
        """call of a variadic function with known arguments"""
        key = 'varg%d' % len(st.g.get('va', {}))
        def h(ex, s, lv, v, ty, node, rest=rest):
            if not isinstance(v['idx'], int): ex.unsupported('va_arg index', node)
            if v['idx'] >= len(rest):
                ex.oblige(s, False, 'safe', 'va_arg beyond the arguments', node); return []
            w = dict(v); w['idx'] = v['idx'] + 1
            ex.store_lv(s, ('c', lv[1], lv[2], None), w, node)
            return [(s, rest[v['idx']])]
        st.g = dict(st.g)
        st.g['va'] = dict(st.g.get('va', {})); st.g['va'][key] = h
        st.g['varargs'] = key

    # ---------- statements
    def exec(self, n, st):
        k = n.kind
        m = getattr(self, 's_' + str(k), None)
        if m is not None: return m(n, st)
        if hasattr(self, 'e_' + str(k)): return [(s, 'next') for s, v in self.eval(n, st)]
        self.unsupported('statement ' + str(k), n)

    def s_CompoundStmt(self, n, st): return self.exec_seq(n.inner, st)

    def exec_seq(self, items, st):
        done = []
        cur = [st]
        for x in items:
            nxt = []
            for s in cur:
                for s2, o in self.exec(x, s):
                    if o == 'next': nxt.append(s2)
                    else: done.append((s2, o))
            cur = nxt
            if not cur: break
        return done + [(s, 'next') for s in cur]

    def s_NullStmt(self, n, st): return [(st, 'next')]
    def s_Empty(self, n, st): return [(st, 'next')]
    def s_BreakStmt(self, n, st): return [(st, 'break')]
    def s_ContinueStmt(self, n, st): return [(st, 'continue')]
    def s_ReturnStmt(self, n, st):
        if not n.inner: return [(st, ('return', None))]
        return [(s, ('return', v)) for s, v in self.eval(n.inner[0], st)]
    def s_AttributedStmt(self, n, st): return self.exec(n.inner[-1], st)
    def s_LabelStmt(self, n, st): self.unsupported('label', n)
    def s_GotoStmt(self, n, st): self.unsupported('goto', n)

    def s_DeclStmt(self, n, st):
        cur = [st]
        for d in n.inner:
            if d.kind == 'VarDecl':
                nxt = []
                for s in cur: nxt += self.decl_var(d, s)
                cur = nxt
            elif d.kind in ('RecordDecl', 'TypedefDecl', 'EnumDecl', 'StaticAssertDecl', 'EmptyDecl'): pass
            else: self.unsupported('declaration ' + str(d.kind), n)
        return [(s, 'next') for s in cur]

    def decl_var(self, d, st):
        ty = self.tu.ctype(d.j['type'])
        if d.j.get('storageClass') == 'static': self.unsupported('static local variable', d)
        init = [c for c in d.inner if not str(c.kind).endswith('Attr')]
        out = []
        if ty.k == 'array' and ty.to.k == 'va_list': ty = ty.to
        if ty.k == 'array' and ty.to.k == 'int' and ty.to.bits == 8:
            return self.decl_bytes(d, st, ty, init)
        if init:
            for s, v in self.eval(init[0], st):
                s.env = dict(s.env); s.env[d.j['id']] = self.new_cell(s, v, ty)
                out.append(s)
        else:
            if ty.k == 'array': v = self.fresh_array(st, ty, d.j.get('name', 'a'))
            elif ty.k == 'struct': v = self.undef_struct(ty)
            elif ty.k == 'va_list': v = {'va': None, 'idx': 0, 'dead': True}
            else: v = Undef()
            st.env = dict(st.env); st.env[d.j['id']] = self.new_cell(st, v, ty)
            out.append(st)
        return out

    def undef_struct(self, ty):
        r = {}
        for n_, t in self.fields(ty):
            r[n_] = self.undef_struct(t) if t.k == 'struct' else Undef()
        return r

    def decl_bytes(self, d, st, ty, init):
        a = fresh_int('stk_' + d.j.get('name', 'a'))
        n = ty.n
        st.assume(z3.And(a >= 4096, a + n <= ADDR_MAX))
        self.separate(st, a, n)
        st.regions['stk%d' % self.ncell + str(a)] = Region(a, n, 'stack', True)
        hb = self.th.new_base()
        st.mem = st.mem.upd('h', a, n, hb)
        cur = [st]
        if init:
            x = _strip(init[0])
            if x.kind == 'StringLiteral':
                import ast
                s0 = x.j['value']; bs = ast.literal_eval('b' + _cesc(s0[s0.index('"'):]))
                st.mem = st.mem.upd('f', a, n, 0)
                for i, b in enumerate(bs[:n]): st.mem = st.mem.upd('w', add(a, i), s8(b))
            else:
                st.mem = st.mem.upd('f', a, n, 0)
                items = x.inner
                if x.j.get('array_filler'):
                    items = [self.tu._node(c) for c in x.j['array_filler'] if c.get('kind')]
                    items = [c for c in items if c.kind != 'ImplicitValueInitExpr']
                for i, c in enumerate(items):
                    rs = self.eval(c, cur[0])
                    if len(rs) != 1: self.unsupported('initialiser', d)
                    cur = [rs[0][0]]
                    cur[0].mem = cur[0].mem.upd('w', add(a, i), s8(I(rs[0][1])))
        for s in cur:
            s.env = dict(s.env); s.env[d.j['id']] = self.new_cell(s, ArrMem(a, n), ty)
        return cur

    def separate(self, st, a, n):
        """fresh memory [a, a+n) overlaps nothing that is alive"""
        for r in st.regions.values():
            if r.live: st.assume(Or(le(add(a, n), r.lo), le(add(r.lo, r.n), a)))

    def branch(self, st, c):
        """[(state, bool)] feasible outcomes"""
        c = B(c)
        if isinstance(c, bool): return [(st, c)]
        out = []
        if self.pr.feasible(st.pc + [c]):
            s = st.copy(); s.assume(c); out.append((s, True))
        nc = Not(c)
        if not out: st.assume(nc); return [(st, False)]
        if self.pr.feasible(st.pc + [nc]):
            s = st.copy(); s.assume(nc); out.append((s, False))
        return out

    def cond(self, n, st):
        out = []
        for s, v in self.eval(n, st):
            v = True if isinstance(v, (OPtr, Fn)) else (self.float_nz(v) if self.ty(n).k == 'float' else B(v))
            out += self.branch(s, v)
        return out

    def s_IfStmt(self, n, st):
        inner = n.inner
        C, T = inner[0], inner[1]
        E = inner[2] if len(inner) > 2 else None
        if n.j.get('hasInit') or n.j.get('hasVar'): self.unsupported('if with declaration', n)
        out = []
        for s, b in self.cond(C, st):
            self.pathcount += 1
            if self.pathcount > 200000: raise Budget('too many paths')
            if self.deadline and time.time() > self.deadline: raise Budget('time budget of this function is used up')
            if b: out += self.exec(T, s)
            elif E is not None: out += self.exec(E, s)
            else: out.append((s, 'next'))
        if self.merge:
            nx = [(s, None) for s, o in out if o == 'next']
            if len(nx) > 1: out = [(s, 'next') for s, _ in self.join(nx)] + [x for x in out if x[1] != 'next']
        return out

    merge = False
    joins = ()
    def join(self, rs):
        """(state, value) pairs that meet at a point of the program, with those that differ only in plain values made one.
        The one that stands for two has a fresh boolean that says which of them it is."""
        out = []
        for s, v in rs:
            for i, (t, w) in enumerate(out):
                m = self.join2(t, w, s, v)
                if m is not None: out[i] = m; break
            else: out.append((s, v))
        return out
    def join2(self, a, va, b, vb):
        if a.mem is not b.mem or a.env is not b.env or a.blocks != b.blocks or a.g != b.g or a.depth != b.depth: return None
        if any(a.regions[k] is not r for k, r in b.regions.items() if k in a.regions): return None
        todo = []
        for c, x in b.store.items():
            if c in a.store and a.store[c] is not x:
                if not mergeable(a.store[c], x): return None
                todo.append(c)
        if va is not vb and not (va is None and vb is None) and not mergeable(va, vb): return None
        g = z3.Bool(fresh_name('join'))
        self.joins.append(g)
        n = 0
        for p, q in zip(a.pc, b.pc):
            if p is not q: break
            n += 1
        s = a.copy()
        s.pc = a.pc[:n] + [B(Implies(g, p)) for p in a.pc[n:]] + [B(Implies(Not(g), q)) for q in b.pc[n:]]
        s.pc = [p for p in s.pc if p is not True]
        for k, r in b.regions.items(): s.regions.setdefault(k, r)
        for c in todo: s.store[c] = self.ite(g, a.store[c], b.store[c])
        for c, x in b.store.items(): s.store.setdefault(c, x)
        return s, (va if va is vb else self.ite(g, va, vb))

    def s_WhileStmt(self, n, st):
        from .loops import run_loop
        return run_loop(self, n, st, n.inner[0], n.inner[-1], None, False)
    def s_DoStmt(self, n, st):
        from .loops import run_loop
        body, c = n.inner[0], n.inner[1]
        if c.kind in ('IntegerLiteral',) and c.j['value'] == '0' or (c.kind == 'ImplicitCastExpr' and c.inner[0].kind == 'IntegerLiteral' and c.inner[0].j['value'] == '0'):
            return [(s, 'next' if o in ('break', 'continue') else o) for s, o in self.exec(body, st)]
        return run_loop(self, n, st, c, body, None, True)
    def s_ForStmt(self, n, st):
        from .loops import run_loop
        init, _, c, inc, body = n.inner
        out = []
        env0 = st.env
        for s, o in (self.exec(init, st) if init.kind != 'Empty' else [(st, 'next')]):
            out += run_loop(self, n, s, None if c.kind == 'Empty' else c, body, None if inc.kind == 'Empty' else inc, False)
        for s, o in out: s.env = env0 if o == 'next' else s.env
        return out

    def s_SwitchStmt(self, n, st):
        C, body = n.inner[0], n.inner[-1]
        out = []
        items = body.inner if body.kind == 'CompoundStmt' else [body]
        # flatten case labels
        flat = []
        for x in items:
            labels = []
            while x.kind in ('CaseStmt', 'DefaultStmt'):
                labels.append(x)
                x = x.inner[-1]
            flat.append((labels, x))
        for s, v in self.eval(C, st):
            rest = []
            targets = []
            default = None
            for i, (ls, x) in enumerate(flat):
                for l in ls:
                    if l.kind == 'DefaultStmt': default = i
                    else:
                        cv = self.eval(l.inner[0], s)[0][1]
                        if len(l.inner) > 2: self.unsupported('case range', n)
                        targets.append((cv, i))
            cur = s
            starts = []
            for cv, i in targets:
                for s2, b in self.branch(cur.copy(), eq(v, cv)):
                    if b: starts.append((s2, i))
                cur.assume(ne(v, cv))
            if self.feasible(cur): starts.append((cur, default))
            for s2, i in starts:
                if i is None: out.append((s2, 'next')); continue
                for s3, o in self.exec_seq([x for _, x in flat[i:]], s2):
                    out.append((s3, 'next' if o == 'break' else o))
        return out

class Undef:
    def __deepcopy__(self, m): return self

def _strip(n):
    while n.kind in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr', 'ExprWithCleanups'): n = n.inner[-1]
    return n

def _cesc(s):
    # clang prints C escapes; python bytes literals understand the same octal/hex/letter escapes
    return s.replace('\\?', '?')

def _occurs(x, e):
    """a variable of x occurs in e"""
    vs = _vars(x)
    return bool(vs & _vars(e))

_vc = {}
def _vars(e):
    if isinstance(e, (int, bool)): return frozenset()
    k = e.get_id()
    if k in _vc and _vc[k][0].eq(e): return _vc[k][1]
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: r = frozenset([e.decl().name()])
    else:
        r = frozenset().union(*[_vars(c) for c in e.children()]) if e.num_args() else frozenset()
    _vc[k] = (e, r)
    return r
