"""Contracts of the file descriptor accessories (strbuf_io.c, strview_io.c)"""
import z3
from vf.sym import *
from vf.contract import *
from vf.contract import Contract, SOURCES, DEPS
from vf.buf import *
from vf.buf import BufContract, HS, setup_models
from vf.engine import OPtr, Fn
from vf.bufrun import ViewIORunner
from contracts.strbuf import isview, absent, C as SC

SOURCES['strbuf_io'] = ('accessories/strbuf_io.c', ['-I/repo', '-I/repo/accessories'])
SOURCES['strview_io'] = ('accessories/strview_io.c', ['-I/repo', '-I/repo/accessories'])
DEPS['strbuf_io'] = ['strbuf_io', 'strbuf', 'strview']
DEPS['strview_io'] = ['strview_io', 'strview']

def call_model(X, reads, want):
    """model of read() / write(): one call, with exactly the arguments the contract names; any result POSIX allows"""
    def m(ex, st, vs, node):
        fd, p, n = vs
        ex.trusted.add('read' if reads else 'write')
        if not ex.record: ex.unsupported('system call in a loop', node)
        a, ln = want()
        what = 'read' if reads else 'write'
        ex.oblige(st, eq(fd, X.a.fd), 'post:B10', '%s gets the descriptor of the caller' % what, node)
        ex.oblige(st, eq(p, a) if not isinstance(p, (OPtr, Fn)) else False, 'post:B10', '%s gets the address of the data' % what, node)
        ex.oblige(st, eq(n, ln), 'post:B10', '%s gets the exact length' % what, node)
        ex.oblige(st, len(st.g.get('sys', ())) == 0, 'post:B10', '%s is called once' % what, node)
        reg = ex.access(st, p, n, reads, node)
        r = fresh_int('sysret'); st.assume(z3.And(r >= -1, r <= Z(I(ln))))
        hb = ex.th.new_base()
        out = []
        for s, pos in ex.branch(st, gt(r, 0)):
            if reads and pos:
                ex.note_write(s, p, r, reg, node)
                s.mem = s.mem.upd('h', I(p), r, hb)
            s.g = dict(s.g); s.g['sys'] = s.g.get('sys', ()) + ((r, hb),)
            out.append((s, r))
        return out
    return m

def syscalls(X):
    if X.concrete: return X.syscalls()
    return [(r, hb.rd) for r, hb in X.st1.g.get('sys', ())]

def io_setup(reads):
    def f(ex, st, sc, X):
        b = X.a.buf
        want = lambda: (add(b.c, b.size), sub(b.cap, b.size)) if reads else (b.c, b.size)
        if b.absent: want = lambda: (0, 0)
        ex.models['read' if reads else 'write'] = call_model(X, reads, want)
    return f

def append_read(X):
    b, n = X.a.buf, X.n.buf
    S = syscalls(X)
    if b.absent: return [('B10', 'without a buffer nothing is read', len(S) == 0), ('B10', 'without a buffer the result is 0', eq(X.r, 0))]
    if len(S) != 1: return [('B10', 'read is called once', False)]
    r, D = S[0]
    got = Ite(gt(r, 0), r, 0)
    return [('B10', "the result is that of read", eq(X.r, r)),
            ('B10', 'the size grows by the number of bytes read', eq(n.size, add(b.size, got))),
            ('B10', 'the old content is kept', X.all1(n.c, add(n.c, b.size), lambda k: eq(X.H1(k), X.H(add(b.c, sub(k, n.c)))))),
            ('B10', 'the bytes read follow the content', X.all1(add(n.c, b.size), add(n.c, n.size), lambda k: eq(X.H1(k), D(add(b.c, sub(k, n.c)))))),
            ('B10 B06', 'reading keeps address and capacity', And(eq(n.addr, b.addr), eq(n.cap, b.cap)))]
def write(X):
    b, n = X.a.buf, X.n.buf
    S = syscalls(X)
    if b.absent: return [('B10', 'without a buffer nothing is written', len(S) == 0), ('B10', 'without a buffer the result is 0', eq(X.r, 0))]
    if len(S) != 1: return [('B10', 'write is called once', False)]
    r, _ = S[0]
    gone = Ite(gt(r, 0), r, 0)
    return [('B10', "the result is that of write", eq(X.r, r)),
            ('B10', 'the bytes accepted are removed', eq(n.size, sub(b.size, gone))),
            ('B10', 'the rest is kept', X.all1(n.c, add(n.c, n.size), lambda k: eq(X.H1(k), X.H(add(add(b.c, gone), sub(k, n.c)))))),
            ('B10 B06', 'writing keeps address and capacity', And(eq(n.addr, b.addr), eq(n.cap, b.cap)))]
SC('strbuf_append_read', [('buf', 'buf**'), ('fd', 'int')], ret='int', props='B01 B04 B05 B06 B10', tu='strbuf_io', setup=io_setup(True), post=append_read, io='read')
SC('strbuf_write', [('fd', 'int'), ('buf', 'buf**')], ret='int', props='B01 B04 B05 B06 B10', tu='strbuf_io', setup=io_setup(False), post=write, io='write')

class ViewIO(Contract):
    def frame_prop(s): return "B01"
    def bind(s, ex, st, sc, X):
        vs = Contract.bind(s, ex, st, sc, X)
        p = X.a.src
        want = lambda: (0, 0) if p.null else (p.v.data, p.v.size)
        ex.models['write'] = call_model(X, False, want)
        return vs
def view_write(X):
    p = X.a.src
    S = syscalls(X)
    if p.null: return [('B10', 'without a view nothing is written', len(S) == 0), ('B10', 'without a view the result is 0', eq(X.r, 0))]
    v, w = p.v, X.n.src.v
    if len(S) == 0: return [('B10', 'write is called for a valid view', v.invalid), ('B10', 'nothing is written for an invalid view', eq(X.r, 0)), ('B10', 'the view stays', w.same(v))]
    if len(S) != 1: return [('B10', 'write is called once', False)]
    r, _ = S[0]
    gone = Ite(gt(r, 0), r, 0)
    return [('B10', "the result is that of write", eq(X.r, r)), ('B10', 'write is called only for a valid view', v.valid),
            ('B10', 'the bytes accepted are removed from the view', And(eq(w.size, sub(v.size, gone)), Or(eq(w.data, add(v.data, gone)), And(w.invalid, gt(gone, 0)))))]



ViewIO('strview_write', [('fd', 'int'), ('src', 'view*')], ret='int', props='B01 B10', tu='strview_io', post=view_write, writes=None, io='write', runner=ViewIORunner)
