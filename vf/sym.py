"""Symbolic values: Python ints/bools fold, everything else is a z3 term over mathematical Int/Bool."""
import z3

class Unsupported(Exception):
    """The verifier cannot express this construct: the function is undecided, never 'proved'."""

def _lift(e):
    """z3 term -> python constant when it is one"""
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def simp(e):
    if isinstance(e, (int, bool)): return e
    return _lift(z3.simplify(e))

def I(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

def B(v):
    if isinstance(v, bool): return v
    if isinstance(v, int): return v != 0
    if z3.is_bool(v): return v
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b, c = v.children()
        if z3.is_int_value(b) and z3.is_int_value(c):
            b, c = b.as_long() != 0, c.as_long() != 0
            if b and c: return True
            if not b and not c: return False
            return a if b else z3.Not(a)
    return simp(v != 0)

def Z(v):
    """to a z3 term"""
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    return v

def And(*xs):
    out = []
    for x in _flat(xs):
        x = B(x)
        if x is False: return False
        if x is True: continue
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def Or(*xs):
    out = []
    for x in _flat(xs):
        x = B(x)
        if x is True: return True
        if x is False: continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else: yield x

def Not(x):
    x = B(x)
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.children()[0]
    return z3.Not(x)

def Implies(a, b):
    a, b = B(a), B(b)
    if a is False or b is True: return True
    if a is True: return b
    if b is False: return Not(a)
    return z3.Implies(a, b)

def Iff(a, b):
    a, b = B(a), B(b)
    if a is True: return b
    if b is True: return a
    if a is False: return Not(b)
    if b is False: return Not(a)
    return a == b

def Ite(c, a, b):
    c = B(c)
    if c is True: return a
    if c is False: return b
    if isinstance(a, dict):
        return {k: Ite(c, a[k], b[k]) for k in a}
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and int(a) == int(b): return a
    if _isb(a) and _isb(b):
        return Or(And(c, a), And(Not(c), b))
    a, b = I(a), I(b)
    if not isinstance(a, int) and not isinstance(b, int) and z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return a
    return z3.If(c, Z(a), Z(b))

def _isb(v): return isinstance(v, bool) or (not isinstance(v, int) and z3.is_expr(v) and z3.is_bool(v))

def add(a, b):
    a, b = I(a), I(b)
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return simp(a + b)

def sub(a, b):
    a, b = I(a), I(b)
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return simp(a - b)

def mul(a, b):
    a, b = I(a), I(b)
    if isinstance(a, int) and isinstance(b, int): return a * b
    return simp(a * b)

def cmp(op, a, b):
    a, b = I(a), I(b)
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if op == '<': r = a < b
    elif op == '<=': r = a <= b
    elif op == '>': r = a > b
    elif op == '>=': r = a >= b
    elif op == '==': r = Z(a) == Z(b)
    else: r = Z(a) != Z(b)
    s = simp(sub(a, b))
    if isinstance(s, int):
        return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[op]
    return r

def lt(a, b): return cmp('<', a, b)
def le(a, b): return cmp('<=', a, b)
def gt(a, b): return cmp('>', a, b)
def ge(a, b): return cmp('>=', a, b)
def eq(a, b):
    if _isb(a) and _isb(b): return Iff(a, b)
    return cmp('==', a, b)
def ne(a, b): return Not(eq(a, b))

def fdiv(a, b):
    """floor division by a positive constant"""
    a = I(a)
    if isinstance(a, int): return a // b
    return simp(a / b)

def fmod(a, b):
    a = I(a)
    if isinstance(a, int): return a % b
    return simp(a % b)

_ctr = [0]
def fresh_name(n):
    _ctr[0] += 1
    return '%s!%d' % (n, _ctr[0])
def fresh_int(n='v'): return z3.Int(fresh_name(n))
def fresh_bool(n='b'): return z3.Bool(fresh_name(n))
def reset_names(): _ctr[0] = 0
