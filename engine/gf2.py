"""Back end for obligations that are equalities of GF(2)-linear bit-vector terms over opaque atoms.

Every bit of a term is brought to its normal form: a set of atoms (python int bit mask) plus a constant.
Atoms are the bits of inputs and the bits of applications of constant lookup tables T (256 entries, looked
up in the real code) to normalised arguments; T2(T1(x)) is rewritten to x when the tables, as found in the
program, are inverse to each other (checked by evaluating all 256 entries).  Two terms with equal normal
forms are equal for every input."""
import z3
from vals import is_sym


class NotLinear(Exception):
    pass


class GF2:
    def __init__(self):
        self.memo = {}        # term id -> (term, bits)
        self.atoms = {}       # key -> first atom index
        self.natoms = 1       # bit 0 = constant one
        self.tables = {}      # uf name -> tuple of ints
        self.app = {}         # bits tuple (result of a table application) -> (table, argument bits)
        self.inv = {}
        self.ufs = {}

    def uf(self, data, bits):
        """uninterpreted function standing for the constant table"""
        key = (data, bits)
        if key not in self.ufs:
            f = z3.Function('tbl%d' % len(self.ufs), z3.BitVecSort(8), z3.BitVecSort(bits))
            self.ufs[key] = f; self.tables[f.name()] = data
        return self.ufs[key]

    def atom(self, key, n):
        if key not in self.atoms:
            self.atoms[key] = self.natoms; self.natoms += n
        a = self.atoms[key]
        return tuple(1 << (a + i) for i in range(n))

    def inverse(self, a, b):
        """b(a(x)) == x for all x"""
        k = (a, b)
        if k not in self.inv:
            A, B = self.tables[a], self.tables[b]
            self.inv[k] = len(A) == len(B) == 256 and all(B[A[x]] == x for x in range(256))
        return self.inv[k]

    def bits(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in memo: stack.pop(); continue
            ch = t.children()
            todo = [c for c in ch if z3.is_bv(c) and c.get_id() not in memo]
            if todo: stack.extend(todo); continue
            memo[i] = (t, self.step(t, [memo[c.get_id()][1] if z3.is_bv(c) else None for c in ch]))
            stack.pop()
        return memo[root.get_id()][1]

    @staticmethod
    def const(b):
        v = 0
        for i, x in enumerate(b):
            if x == 1: v |= 1 << i
            elif x: return None
        return v

    def step(self, t, c):
        n = t.size()
        k = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_long(); return tuple((v >> i) & 1 for i in range(n))
        if k == z3.Z3_OP_BXOR:
            r = list(c[0])
            for x in c[1:]:
                for i in range(n): r[i] ^= x[i]
            return tuple(r)
        if k == z3.Z3_OP_BNOT: return tuple(x ^ 1 for x in c[0])
        if k == z3.Z3_OP_CONCAT:
            r = ()
            for x in reversed(c): r += x
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params(); return c[0][lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT: return c[0] + (0,) * (n - len(c[0]))
        if k == z3.Z3_OP_SIGN_EXT: return c[0] + (c[0][-1],) * (n - len(c[0]))
        if k == z3.Z3_OP_BAND or k == z3.Z3_OP_BOR:
            r = list(c[0])
            for x in c[1:]:
                for i in range(n):
                    a, b = r[i], x[i]
                    if k == z3.Z3_OP_BAND: v = 0 if a == 0 or b == 0 else b if a == 1 else a if b == 1 or a == b else None
                    else: v = 1 if a == 1 or b == 1 else b if a == 0 else a if b == 0 or a == b else None
                    if v is None: raise NotLinear()
                    r[i] = v
            return tuple(r)
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            s = self.const(c[1])
            if s is None: raise NotLinear()
            if k == z3.Z3_OP_BSHL: return ((0,) * s + c[0])[:n]
            top = 0 if k == z3.Z3_OP_BLSHR else c[0][-1]
            return (c[0][s:] + (top,) * n)[:n]
        if k == z3.Z3_OP_BMUL and len(c) == 2:
            for a, b in ((c[0], c[1]), (c[1], c[0])):
                v = self.const(a)
                if v is not None:
                    if v & (v - 1) == 0:
                        return (0,) * n if v == 0 else ((0,) * (v.bit_length() - 1) + b)[:n]
                    if not any(b[1:]): return tuple(b[0] if (v >> i) & 1 else 0 for i in range(n))
            raise NotLinear()
        if k == z3.Z3_OP_BADD:
            r = list(c[0])
            for x in c[1:]:
                for i in range(n):
                    if r[i] and x[i]: raise NotLinear()
                    r[i] ^= x[i]
            return tuple(r)
        if k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_SELECT:
            if t.num_args() == 0: return self.atom(('v', t.decl().name()), n)
            if t.decl().name() in self.tables:
                f = t.decl().name(); a = c[0]
                if a in self.app and self.inverse(self.app[a][0], f): return self.app[a][1]
                v = self.const(a)
                if v is not None: return tuple((self.tables[f][v] >> i) & 1 for i in range(n))
                r = self.atom((f, a), n)
                self.app[r] = (f, a)
                return r
            return self.atom(('s', t.get_id()), n)
        raise NotLinear()

    def prove(self, c):
        """True when c is a conjunction of equalities between terms with the same normal form"""
        try:
            if z3.is_and(c): return all(self.prove(x) for x in c.children())
            if z3.is_eq(c) and z3.is_bv(c.arg(0)):
                return self.bits(c.arg(0)) == self.bits(c.arg(1))
        except NotLinear: pass
        return False

    def top(self, t):
        """number of low bits that may be non-zero"""
        try: b = self.bits(t)
        except NotLinear: return t.size()
        n = len(b)
        while n and b[n - 1] == 0: n -= 1
        return n

    def value(self, t):
        try: return self.const(self.bits(t))
        except NotLinear: return None
