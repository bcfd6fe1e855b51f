"""Values and arithmetic theories (bit-vector and mathematical-integer) for the VC generator."""
import z3


class Ptr:
    __slots__ = ('oid', 'off')

    def __init__(self, oid, off): self.oid = oid; self.off = off

    def __repr__(self): return 'Ptr(%s,%r)' % (self.oid, self.off)


class Frag:
    """a multi-field integer loaded as one word (int mode): parts = [(byte offset, bytes, value)] covering n bytes"""
    __slots__ = ('parts', 'n')

    def __init__(self, parts, n): self.parts = parts; self.n = n


class Lin:
    """c + sum(scale * term)   (terms are 64-bit signed quantities: BitVec(64) or Int)"""
    __slots__ = ('c', 'ts')

    def __init__(self, c, ts): self.c = c; self.ts = ts   # ts: dict id -> (scale, term)

    def __repr__(self): return 'Lin(%d%s)' % (self.c, ''.join(' + %d*%s' % (s, t) for s, t in self.ts.values()))


def lin_add(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a + b
        a, b = b, a
    if isinstance(b, int): return Lin(a.c + b, a.ts)
    ts = dict(a.ts)
    for k, (s, t) in b.ts.items():
        if k in ts:
            s2 = ts[k][0] + s
            if s2: ts[k] = (s2, t)
            else: del ts[k]
        else: ts[k] = (s, t)
    c = a.c + b.c
    return Lin(c, ts) if ts else c


def lin_neg(a):
    if isinstance(a, int): return -a
    return Lin(-a.c, {k: (-s, t) for k, (s, t) in a.ts.items()})


def is_sym(v): return isinstance(v, z3.ExprRef)


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def mkbool(v):
    if isinstance(v, z3.BoolRef): return v
    return TRUE if v else FALSE


def bsimp(e):
    e = z3.simplify(e)
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e


def bnot(v):
    if isinstance(v, int): return 1 - v
    return z3.Not(v)


class Unsupported(Exception):
    pass
