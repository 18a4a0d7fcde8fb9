"""Integer operations on values that are Python ints (concrete) or z3 terms.
i1 values are 0/1 or z3 Bool; iN values are unsigned ints or z3 BitVec(N)."""
import z3

BVV = z3.BitVecVal

def norm(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

def bv(x, n):
    if x.__class__ is int: return BVV(x, n)
    if z3.is_bool(x): return z3.If(x, BVV(1, n), BVV(0, n))
    return x

def bo(x):
    if x.__class__ is int: return z3.BoolVal(bool(x))
    if z3.is_bool(x): return x
    return x != BVV(0, x.size())

def sgn(a, n):
    return a - (1 << n) if a >> (n - 1) else a

def binop(op, a, b, n):
    """slow path: at least one symbolic, or division"""
    M = (1 << n) - 1
    if a.__class__ is int and b.__class__ is int:
        if op == 'add': return (a + b) & M
        if op == 'sub': return (a - b) & M
        if op == 'mul': return (a * b) & M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl':
            b &= (31 if n <= 32 else 63); return (a << b) & M
        if op == 'lshr':
            b &= (31 if n <= 32 else 63); return a >> b
        if op == 'ashr':
            b &= (31 if n <= 32 else 63); return (sgn(a, n) >> b) & M
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, n), sgn(b, n)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & M
        raise ValueError(op)
    if n == 1:
        a, b = bo(a), bo(b)
        if op == 'and': return norm(z3.And(a, b))
        if op == 'or': return norm(z3.Or(a, b))
        if op in ('xor', 'add', 'sub'): return norm(z3.Xor(a, b))
        if op == 'mul': return norm(z3.And(a, b))
        raise ValueError(op)
    x, y = bv(a, n), bv(b, n)
    if op == 'add': return norm(x + y)
    if op == 'sub': return norm(x - y)
    if op == 'mul': return norm(x * y)
    if op == 'and': return norm(x & y)
    if op == 'or': return norm(x | y)
    if op == 'xor': return norm(x ^ y)
    if op in ('shl', 'lshr', 'ashr'):
        w = 31 if n <= 32 else 63
        y = bv(b & w, n) if b.__class__ is int else y & BVV(w, n)
        if op == 'shl': return norm(x << y)
        if op == 'lshr': return norm(z3.LShR(x, y))
        return norm(x >> y)
    if op == 'udiv': return norm(z3.UDiv(x, y))
    if op == 'urem': return norm(z3.URem(x, y))
    if op == 'sdiv': return norm(x / y)
    if op == 'srem': return norm(z3.SRem(x, y))
    raise ValueError(op)

def icmp(pred, a, b, n):
    if a.__class__ is int and b.__class__ is int:
        if pred[0] == 's':
            S = 1 << (n - 1); a ^= S; b ^= S
        if pred == 'eq': r = a == b
        elif pred == 'ne': r = a != b
        elif pred in ('ult', 'slt'): r = a < b
        elif pred in ('ule', 'sle'): r = a <= b
        elif pred in ('ugt', 'sgt'): r = a > b
        else: r = a >= b
        return 1 if r else 0
    if n == 1:
        x, y = bo(a), bo(b)
        if pred == 'eq': return norm(x == y)
        if pred == 'ne': return norm(z3.Xor(x, y))
        x, y = bv(a, 1), bv(b, 1)
    else:
        x, y = bv(a, n), bv(b, n)
    if pred == 'eq': e = x == y
    elif pred == 'ne': e = x != y
    elif pred == 'ult': e = z3.ULT(x, y)
    elif pred == 'ule': e = z3.ULE(x, y)
    elif pred == 'ugt': e = z3.UGT(x, y)
    elif pred == 'uge': e = z3.UGE(x, y)
    elif pred == 'slt': e = x < y
    elif pred == 'sle': e = x <= y
    elif pred == 'sgt': e = x > y
    else: e = x >= y
    return norm(e)

def zext(a, f, t):
    if a.__class__ is int: return a
    if f == 1: return z3.If(bo(a), BVV(1, t), BVV(0, t))
    if f == t: return a
    return norm(z3.ZeroExt(t - f, a))

def sext(a, f, t):
    if a.__class__ is int:
        return (a | (((1 << t) - 1) ^ ((1 << f) - 1))) if a >> (f - 1) else a
    if f == 1: return z3.If(bo(a), BVV((1 << t) - 1, t), BVV(0, t))
    if f == t: return a
    return norm(z3.SignExt(t - f, a))

def trunc(a, f, t):
    if a.__class__ is int: return a & ((1 << t) - 1)
    if f == t: return a
    if t == 1: return norm(z3.Extract(0, 0, a) == BVV(1, 1))
    return norm(z3.Extract(t - 1, 0, a))

def resize(a, f, t):
    if f == t: return a
    return trunc(a, f, t) if t < f else zext(a, f, t)

def ite(c, a, b, n):
    if c.__class__ is int: return a if c else b
    if a is b: return a
    if n == 1: return norm(z3.If(bo(c), bo(a), bo(b)))
    return norm(z3.If(bo(c), bv(a, n), bv(b, n)))

def byte(e, k):
    """byte k (least significant first) of value e"""
    if e.__class__ is int: return (e >> (8 * k)) & 0xff
    return norm(z3.Extract(8 * k + 7, 8 * k, e))

def adapt(args, wf, wt):
    """fit argument widths to the parameters of an environment function"""
    out = []
    for a, f, t in zip(args, wf, wt):
        out.append(a if f == t or not f else zext(a, f, t) if f < t else trunc(a, f, t))
    return out + [0] * (len(wt) - len(out))
