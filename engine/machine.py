"""Memory model, instruction semantics and path exploration."""
import math, fractions
from engine import *
from engine import Fork, Dead, Obj, Frame, State, Failure, STD_BASES, THROWERS
import llparse as L


class Machine(Engine):
    # ------------------------------------------------------------------ objects
    def newobj(self, st, size, tag, name='', kind='cells', const=False):
        o = Obj.__new__(Obj)
        o.oid = self.next_oid; self.next_oid += 1
        o.size = size; o.kind = kind; o.cells = {} if kind == 'cells' else None
        o.es = None; o.arr = None; o.live = True; o.tag = tag; o.name = name; o.const = const; o.count = None
        o.owner = st.uid if st else 0; o.wlog = None; o.et = None; o.init = True
        if st: st.mem[o.oid] = o
        else: self.base_mem[o.oid] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner != st.uid:
            o = o.clone(st.uid); st.mem[oid] = o
        return o

    def global_oid(self, name):
        o = self.goid.get(name)
        if o is not None: return o
        m = self.mod
        if name in m.aliases:
            v = m.aliases[name]
            if isinstance(v, Sym): return self.global_oid(v.name)
        if name in m.fns:
            ob = self.newobj(None, 1, 'func', name, kind='func', const=True)
            self.fnoid[ob.oid] = name
        elif name in m.gdef:
            ty, init, const = m.gdef[name]
            try: sz = sizeof(ty)
            except Exception: sz = 64
            ob = self.newobj(None, sz, 'global', name, const=const)
            ob.init = False
        else:
            ob = self.newobj(None, 64, 'global', name, const=True)
        self.goid[name] = ob.oid; self.gname[ob.oid] = name
        for s in self.live_states(): s.mem.setdefault(ob.oid, ob)
        return ob.oid

    def live_states(self):
        return ([self.cur] if self.cur is not None else []) + self.work

    cur = None
    work = []

    def init_global(self, st, o):
        """materialise the initialiser (shared base object; done before any write)"""
        base = self.base_mem[o.oid]
        if not base.init:
            base.init = True
            ty, init, const = self.mod.ginit(base.name)
            if base.name == '__libc_single_threaded':
                self.fill(base, 0, ty, 1)      # no second thread is ever started
            elif init is None:
                base.tag = 'extern'
            else:
                self.fill(base, 0, ty, init)
        if o is not base and not o.init:
            o.init = True; o.cells = dict(base.cells)
            o.tag = base.tag
        return st.mem[o.oid]

    def fill(self, o, off, ty, v):
        k = ty.k
        if v is UNDEF: return
        if k == 'struct':
            offs = offsets(ty)
            for i, f in enumerate(ty.fields):
                self.fill(o, off + offs[i], f, v if v is ZERO else v[i])
        elif k in ('arr', 'vec'):
            es = sizeof(ty.e)
            if v is ZERO and ty.n > 4096:
                for i in range(ty.n): self.fill(o, off + i * es, ty.e, ZERO)
                return
            for i in range(ty.n):
                self.fill(o, off + i * es, ty.e, v if v is ZERO else v[i])
        else:
            o.cells[off] = (sizeof(ty), self.cval(v, ty))

    def cval(self, v, ty):
        """constant -> runtime value"""
        if isinstance(v, int): return v
        if v is UNDEF: return UNDEF
        if v is ZERO:
            if ty.k == 'ptr': return Ptr(0, 0)
            if ty.k in ('arr', 'vec'): return tuple(self.cval(ZERO, ty.e) for _ in range(ty.n))
            if ty.k == 'struct': return tuple(self.cval(ZERO, f) for f in ty.fields)
            return 0
        if isinstance(v, Sym):
            if v.name is None: return Ptr(0, v.off)
            return Ptr(self.global_oid(v.name), v.off)
        if isinstance(v, tuple):
            if ty.k == 'struct': return tuple(self.cval(x, f) for x, f in zip(v, ty.fields))
            return tuple(self.cval(x, ty.e) for x in v)
        if isinstance(v, CExpr):
            if v.op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                t1, x, t2 = v.args
                x = self.cval(x, t1)
                if v.op == 'ptrtoint': return self.ptrint(x)
                if v.op == 'inttoptr':
                    if isinstance(x, Ptr): return x
                    oid, off = divmod(x, self.BASE); return Ptr(oid, off)
                return x
            if v.op == 'gep':
                b, o = v.args
                b = self.cval(b, PTR)
                return Ptr(b.oid, lin_add(b.off, o))
            if v.op in ('sub', 'add'):
                (t, a), (_, b) = v.args[1]
                a, b = self.cval(a, t), self.cval(b, t)
                return (a - b if v.op == 'sub' else a + b) & ((1 << t.n) - 1)
            if v.op == 'icmp':
                (t, a), (_, b) = v.args[1]
                return self.cmp(None, v.args[0], self.cval(a, t), self.cval(b, t), 64)
        raise Unsupported('const %r' % (v,))

    # ------------------------------------------------------------------ access checks
    def size_ok(self, st, o, off, n, what):
        if not o.live:
            self.oblige(st, 0, 'use-after-free', '%s of dead %s object' % (what, o.tag))
        sz = o.size
        if isinstance(off, int) and isinstance(sz, int):
            if 0 <= off and off + n <= sz:
                self.obl_total += 1; self.obl_done += 1; self.obl_trivial += 1
                return
            self.oblige(st, 0, 'bounds', '%s %s+%d size %d' % (what, o.name or o.tag, n, sz))
        if o.kind == 'array' and o.count is not None and n % o.es == 0:
            ix = self.elem_index(off, o.es)
            if ix is not None:
                m = n // o.es
                C = o.count if is_sym(o.count) else (z3.IntVal(o.count) if self.mode == 'int' else z3.BitVecVal(o.count, 64))
                self.oblige(st, bsimp(z3.And(ix >= 0, ix + m <= C)), 'bounds', '%s %s' % (what, o.name or o.tag))
                return
        OFF = self.lin_term(off)
        if self.gf2 and isinstance(sz, int) and z3.is_bv(OFF) and (1 << self.gf2.top(OFF)) - 1 + n <= sz:
            self.obl_total += 1; self.obl_done += 1
            return
        S = sz if is_sym(sz) else (z3.IntVal(sz) if self.mode == 'int' else z3.BitVecVal(sz, 64))
        self.oblige(st, bsimp(z3.And(OFF >= 0, OFF <= S - n, S >= n)), 'bounds', '%s %s' % (what, o.name or o.tag))

    def elem_index(self, off, es):
        if isinstance(off, int):
            if off % es: return None
            return z3.IntVal(off // es) if self.mode == 'int' else z3.BitVecVal(off // es, 64)
        if off.c % es: return None
        r = None
        for s, t in off.ts.values():
            if s % es:
                if self.mode == 'int':
                    d = self.poly_div(t * s, es)
                    if d is None: return None
                    x = d
                else:
                    d = self.bv_div(t, s, es)
                    if d is None: return None
                    x = d
            else: x = t if s == es else t * (s // es)
            r = x if r is None else r + x
        if off.c: r = r + off.c // es
        return r

    def bv_div(self, t, s, es):
        """(t*s)/es for a 64-bit bv term known to be a multiple, syntactically"""
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            v = t.as_signed_long() * s
            return z3.BitVecVal(v // es, 64) if v % es == 0 else None
        if t.decl().kind() == z3.Z3_OP_BMUL:
            ch = t.children()
            if z3.is_bv_value(ch[0]):
                c = ch[0].as_signed_long() * s
                if c % es == 0:
                    r = ch[1]
                    for x in ch[2:]: r = r * x
                    return r * (c // es) if c // es != 1 else r
        if t.decl().kind() == z3.Z3_OP_BADD:
            cs = [self.bv_div(c, s, es) for c in t.children()]
            if any(c is None for c in cs): return None
            r = cs[0]
            for x in cs[1:]: r = r + x
            return r
        if t.decl().kind() == z3.Z3_OP_CONCAT:
            ch = t.children()
            low = ch[-1]
            if z3.is_bv_value(low) and low.as_long() == 0:
                b = low.size()
                if (s << b) % es == 0:
                    top = z3.Concat(*ch[:-1]) if len(ch) > 2 else ch[0]
                    k = (s << b) // es
                    x = z3.SignExt(64 - top.size(), top)
                    return x * k if k != 1 else x
        return None

    def getobj(self, st, p, what):
        if p is UNDEF or not isinstance(p, Ptr):
            if p is UNDEF: self.oblige(st, 0, 'uninitialised-pointer', what)
            p = self.intptr(st, p)
        if p.oid == 0 or p.oid not in st.mem:
            if p.oid in self.base_mem: st.mem[p.oid] = self.base_mem[p.oid]
            else: self.oblige(st, 0, 'null-deref', what)
        o = st.mem[p.oid]
        if not o.init: o = self.init_global(st, o)
        return p, o

    def conc_off(self, st, o, off, n):
        """enumerate feasible concrete offsets of a symbolic access into a cell object"""
        T_ = self.lin_term(off)
        while True:
            r = self.check(st)
            if r == z3.unsat: raise Dead('infeasible')
            if r != z3.sat: raise Unsupported('offset enumeration: solver unknown')
            v = self.last_model.eval(T_, model_completion=True)
            v = v.as_long() if z3.is_int_value(v) else v.as_signed_long()
            if self.decide(st, T_ == v): return v

    def conc_any(self, st, off):
        t = self.lin_term(off)
        r = self.check(st)
        if r != z3.sat: raise Dead('infeasible')
        v = self.last_model.eval(t, model_completion=True)
        v = v.as_signed_long() if z3.is_bv(v) else v.as_long()
        if self.decide(st, t == v): return v
        raise Fork(t == v)

    def to_array(self, st, o, es):
        """convert a uniform cell object into an SMT array object"""
        if o.kind == 'array': return o.es == es
        if not isinstance(o.size, int):
            cnt = None
            if self.mode == 'int':
                d = self.poly_div(o.size, es)
            else:
                d = self.bv_div(z3.simplify(o.size), 1, es)
            if d is None: return False
            for off, (n, v) in o.cells.items():
                if n != es or off % es: return False
            cnt = d
        else:
            if o.size % es: return False
            cnt = o.size // es
            for off, (n, v) in o.cells.items():
                if n != es or off % es or isinstance(v, (Ptr, tuple)): return False
        sort = self.esort(o, es)
        o = self.wobj(st, o.oid)
        arr = self.fresh(z3.ArraySort(self.ielem, sort), 'mem')
        for off in sorted(o.cells):
            n, v = o.cells[off]
            if v is UNDEF: continue
            arr = z3.Store(arr, self.kidx(off // es), self.evalue(v, es, sort))
        o.kind = 'array'; o.es = es; o.arr = arr; o.count = cnt; o.cells = None
        return True

    def esort(self, o, es):
        if self.mode == 'int' and o.et == 'int': return z3.IntSort()
        return z3.BitVecSort(8 * es)

    def kidx(self, i): return z3.IntVal(i) if self.mode == 'int' else z3.BitVecVal(i, 64)

    def evalue(self, v, es, sort):
        if v is UNDEF: return self.fresh(sort, 'undef')
        if isinstance(v, Ptr): raise Unsupported('pointer stored in data array')
        if not is_sym(v):
            if sort == z3.IntSort(): return z3.IntVal(sgn(v, 8 * es))
            return z3.BitVecVal(v, 8 * es)
        if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0)) if sort == z3.IntSort() else z3.If(v, z3.BitVecVal(1, 8 * es), z3.BitVecVal(0, 8 * es))
        if sort == z3.IntSort() and z3.is_bv(v): return z3.BV2Int(v, True)
        if sort != z3.IntSort() and not z3.is_bv(v): return z3.Int2BV(v, 8 * es)
        return v

    # ------------------------------------------------------------------ load / store
    def load(self, st, p, ty):
        if ty.k == 'struct':
            offs = offsets(ty)
            return tuple(self.load(st, Ptr(p.oid, lin_add(p.off, offs[i])), f) for i, f in enumerate(ty.fields))
        if ty.k in ('arr', 'vec'):
            es = sizeof(ty.e)
            return tuple(self.load(st, Ptr(p.oid, lin_add(p.off, i * es)), ty.e) for i in range(ty.n))
        p, o = self.getobj(st, p, 'load')
        n = sizeof(ty)
        off = p.off
        if o.kind == 'cells' and isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[0] == n and o.live and isinstance(o.size, int) and off + n <= o.size:
                self.obl_total += 1; self.obl_done += 1; self.obl_trivial += 1
                return self.retype(st, c[1], ty)
        self.size_ok(st, o, off, n, 'load')
        o = st.mem[p.oid]
        if o.kind == 'func': raise Unsupported('load from function')
        if o.kind == 'cells' and not isinstance(off, int):
            nel = o.size // n if isinstance(o.size, int) and n else 0
            if (o.const or self.gf2 and nel == 256) and nel > 16 and self.const_table(o, n):
                return self.table(o, off, n, ty)
            if nel and nel <= self.small_cells:
                off = self.conc_off(st, o, off, n)
            else:
                if o.et is None and ty.k == 'int': o.et = 'int'
                if not self.to_array(st, o, n):
                    off = self.conc_off(st, o, off, n)
                o = st.mem[p.oid]
        elif o.kind == 'cells' and not isinstance(o.size, int):
            if o.et is None and ty.k == 'int': o.et = 'int'
            self.to_array(st, o, n)
            o = st.mem[p.oid]
        if o.kind == 'array':
            return self.aload(st, o, off, n, ty)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return self.retype(st, c[1], ty)
        if self.mode == 'int' and n in (2, 4, 8, 16) and ty.k == 'int':
            parts = []; k = 0
            while k < n:
                c = o.cells.get(off + k)
                if c is None or k + c[0] > n or isinstance(c[1], (Ptr, Frag)): break
                parts.append((k, c[0], c[1])); k += c[0]
            if k == n and any(is_sym(v) and not z3.is_bv(v) for _, _, v in parts) and len(parts) > 1: return Frag(parts, n)
            f = self.find_cover(o, off)
            if f is not None and f[0] + f[1][0] >= off + n and is_sym(f[1][1]) and not isinstance(f[1][1], (Ptr, Frag)) and z3.is_int(f[1][1]):
                p = st.ghost.get(('pack', f[1][1].get_id()))
                if p and f[1][0] == 8 and n == 4 and p[3] == 32 and off in (f[0], f[0] + 4): return p[2] if off == f[0] else p[1]
                e = self.uval(st, f[1][1], 8 * f[1][0])
                return self.from_unsigned(st, z3.simplify((e / (1 << (8 * (off - f[0])))) % (1 << (8 * n))), 8 * n)
        return self.retype(st, self.bytes_load(st, o, off, n), ty)

    small_cells = 24
    opaque_text = False

    def aload(self, st, o, off, n, ty):
        if n != o.es:
            if n > o.es and n % o.es == 0:
                parts = [self.sv_bv(self.aload(st, o, lin_add(off, i), o.es, INT(8 * o.es)), 8 * o.es) for i in range(0, n, o.es)]
                r = z3.simplify(z3.Concat(*reversed(parts)))
                return self.retype(st, r.as_long() if z3.is_bv_value(r) else r, ty)
            raise Unsupported('array access width %d != %d (%s)' % (n, o.es, o.name))
        ix = self.elem_index(off, o.es)
        if ix is None: raise Unsupported('misaligned array access')
        v = z3.Select(o.arr, z3.simplify(ix))
        v = z3.simplify(v)
        if z3.is_bv_value(v): return self.retype(st, v.as_long(), ty)
        if z3.is_int_value(v): return v.as_long() & ((1 << (8 * n)) - 1)
        if self.mode == 'int' and not z3.is_bv(v):
            if v.get_id() not in st.ghost.get('rng', ()):
                st.pc.append(z3.And(v >= -(1 << (8 * n - 1)), v < (1 << (8 * n - 1))))
        return self.retype(st, v, ty)

    def sv_bv(self, v, n):
        if not is_sym(v): return z3.BitVecVal(v, n)
        if not z3.is_bv(v): return z3.Int2BV(v, n)
        return v

    def retype(self, st, v, ty):
        if v is UNDEF or isinstance(v, Frag): return v
        if ty.k == 'ptr':
            if not isinstance(v, Ptr): return self.intptr(st, v)
            return v
        if ty.k == 'int':
            if isinstance(v, Ptr): return self.ptrint(v) if ty.n == 64 else v
            if ty.n == 1:
                if not is_sym(v): return v & 1
                if z3.is_bool(v): return v
                if self.mode == 'int': return bsimp(v % 2 == 1)
                return bsimp(z3.Extract(0, 0, v) == 1)
            if is_sym(v) and z3.is_bool(v): return self.norm(self.sv(v, ty.n), ty.n)
            if self.mode == 'int' and is_sym(v) and z3.is_bv(v): 
                r = z3.BV2Int(v, True)
                return r
            return v
        if is_sym(v) and not z3.is_bv(v): return z3.Int2BV(v, ty.n)
        return v

    def const_table(self, o, n):
        return len(o.cells) * n == o.size and all(c[0] == n and isinstance(c[1], int) for c in o.cells.values())

    def table(self, o, off, n, ty):
        ix = self.elem_index(off, n)
        N = o.size // n
        if self.mode == 'int':
            key = ('tbl', o.oid, n)
            r = z3.IntVal(sgn(o.cells[(N - 1) * n][1], 8 * n))
            for i in range(N - 2, -1, -1): r = z3.If(ix == i, z3.IntVal(sgn(o.cells[i * n][1], 8 * n)), r)
            return r
        bits = max(1, (N - 1).bit_length())
        if self.gf2 and N == 256 and ty.n != 1:
            return self.gf2.uf(tuple(o.cells[i * n][1] for i in range(N)), 8 * n)(z3.Extract(7, 0, ix))
        ix = z3.simplify(ix)
        def mux(lo, b):
            if b < 0:
                return z3.BitVecVal(o.cells[lo * n][1], 8 * n) if lo < N else z3.BitVecVal(0, 8 * n)
            if lo >= N: return z3.BitVecVal(0, 8 * n)
            hi = mux(lo + (1 << b), b - 1); lw = mux(lo, b - 1)
            return z3.If(z3.Extract(b, b, ix) == 1, hi, lw)
        v = mux(0, bits - 1)
        return v if ty.n != 1 else bsimp(z3.Extract(0, 0, v) == 1)

    def byte_of(self, c, i):
        """byte i of cell (n, v)"""
        n, v = c
        if v is UNDEF: return UNDEF
        if isinstance(v, int): return (v >> (8 * i)) & 255
        if isinstance(v, Ptr): return ('pb', v, i)
        if z3.is_bool(v): return (z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if self.mode == 'bv' else v) if i == 0 else 0
        if z3.is_bv(v):
            return z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
        if n == 1: return v
        return ('ib', v, i, n)

    def find_cover(self, o, off):
        for d in range(0, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d: return off - d, c
                return None
        return None

    def bytes_load(self, st, o, off, n):
        bs = []
        for i in range(n):
            f = self.find_cover(o, off + i)
            if f is None:
                if o.tag == 'extern': bs.append(self.fresh(z3.BitVecSort(8), 'ext'))
                else: bs.append(UNDEF)
            else: bs.append(self.byte_of(f[1], off + i - f[0]))
        return self.assemble(bs, n)

    def assemble(self, bs, n):
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if all(b is UNDEF for b in bs): return UNDEF
        if isinstance(bs[0], tuple) and bs[0][0] == 'pb':
            v = bs[0][1]
            if n == 8 and all(isinstance(b, tuple) and b[0] == 'pb' and b[1] is v and b[2] == i for i, b in enumerate(bs)): return v
            x = self.ptrint(v)
            if not is_sym(x):
                bs = [(x >> (8 * b[2])) & 255 if isinstance(b, tuple) and b[0] == 'pb' and b[1] is v else b for b in bs]
                return self.assemble(bs, n)
        if isinstance(bs[0], tuple) and bs[0][0] == 'ib':
            v = bs[0][1]
            if n == bs[0][3] and all(isinstance(b, tuple) and b[0] == 'ib' and b[1] is v and b[2] == i for i, b in enumerate(bs)): return v
        if n == 1: return bs[0]
        parts = []
        for b in bs:
            if b is UNDEF: parts.append(self.fresh(z3.BitVecSort(8), 'undefb'))
            elif isinstance(b, int): parts.append(z3.BitVecVal(b, 8))
            elif isinstance(b, tuple): raise Unsupported('partial pointer/int access')
            elif z3.is_bv(b): parts.append(b)
            else: parts.append(z3.Int2BV(b, 8))
        r = z3.simplify(z3.Concat(*reversed(parts)))
        return r.as_long() if z3.is_bv_value(r) else r

    def store(self, st, p, v, ty):
        if ty.k == 'struct':
            offs = offsets(ty)
            for i, f in enumerate(ty.fields):
                self.store(st, Ptr(p.oid, lin_add(p.off, offs[i])), UNDEF if v is UNDEF else v[i], f)
            return
        if isinstance(v, Frag):
            for k, m, x in v.parts: self.store(st, Ptr(p.oid, lin_add(p.off, k)), x, INT(8 * m))
            return
        if ty.k in ('arr', 'vec'):
            es = sizeof(ty.e)
            for i in range(ty.n): self.store(st, Ptr(p.oid, lin_add(p.off, i * es)), UNDEF if v is UNDEF else v[i], ty.e)
            return
        p, o = self.getobj(st, p, 'store')
        n = sizeof(ty)
        off = p.off
        self.size_ok(st, o, off, n, 'store')
        o = st.mem[p.oid]
        if o.const: self.oblige(st, 0, 'write-to-const', o.name)
        if o.kind == 'cells' and not isinstance(off, int):
            nel = o.size // n if isinstance(o.size, int) and n else 0
            if nel and nel <= self.small_cells: off = self.conc_off(st, o, off, n)
            else:
                if o.et is None and ty.k == 'int': o.et = 'int'
                if not self.to_array(st, o, n): off = self.conc_off(st, o, off, n)
                o = st.mem[p.oid]
        elif o.kind == 'cells' and not isinstance(o.size, int):
            if o.et is None and ty.k == 'int': o.et = 'int'
            self.to_array(st, o, n)
            o = st.mem[p.oid]
        o = self.wobj(st, p.oid)
        if o.wlog is not None: o.wlog.append((off, n))
        if o.kind == 'array':
            if n != o.es:
                if n > o.es and n % o.es == 0:
                    b = self.sv_bv(v if v is not UNDEF else self.fresh(z3.BitVecSort(8 * n), 'undef'), 8 * n)
                    for i in range(0, n, o.es):
                        self.store(st, Ptr(p.oid, lin_add(off, i)), z3.simplify(z3.Extract(8 * (i + o.es) - 1, 8 * i, b)), INT(8 * o.es))
                    return
                raise Unsupported('array store width %d != %d (%s)' % (n, o.es, o.name))
            ix = self.elem_index(off, o.es)
            if ix is None: raise Unsupported('misaligned array store')
            o.arr = z3.Store(o.arr, z3.simplify(ix), self.evalue(v, o.es, o.arr.sort().range()))
            return
        self.cstore(o, off, n, v)

    def cstore(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        cells[off] = (n, v)

    def clear(self, o, off, n):
        """remove / split cells overlapping [off, off+n)"""
        cells = o.cells
        if n > 64 and len(cells) < n:
            keys = [k for k in cells if k < off + n and k + cells[k][0] > off]
        else:
            keys = [k for k in range(off - 15, off + n) if k in cells and k + cells[k][0] > off]
        for k in keys:
            m, w = cells.pop(k)
            if k >= off and k + m <= off + n: continue
            for i in range(m):
                if not off <= k + i < off + n: cells[k + i] = (1, self.byte_of((m, w), i))

    # ------------------------------------------------------------------ bulk memory
    def memcpy(self, st, d, s, n, what='memcpy'):
        if is_sym(n):
            r = z3.simplify(n)
            n = r.as_long() if (z3.is_bv_value(r) or z3.is_int_value(r)) else n
        if not is_sym(n):
            if n == 0: return
        d, do = self.getobj(st, d, what); s, so = self.getobj(st, s, what)
        if is_sym(n): return self.memcpy_sym(st, d, do, s, so, n, what)
        self.size_ok(st, so, s.off, n, what + '-src'); self.size_ok(st, do, d.off, n, what + '-dst')
        so = st.mem[s.oid]; do = st.mem[d.oid]
        if so.kind == 'cells' and do.kind == 'cells' and isinstance(s.off, int) and isinstance(d.off, int):
            if isinstance(do.size, int) or n <= 64:
                do = self.wobj(st, d.oid); so = st.mem[s.oid]
                if do.const: self.oblige(st, 0, 'write-to-const', do.name)
                if do.wlog is not None: do.wlog.append((d.off, n))
                new = []
                a, b = s.off, s.off + n
                it = [k for k in so.cells if a - 15 <= k < b] if len(so.cells) < n + 16 else [k for k in range(a - 15, b) if k in so.cells]
                for k in it:
                    m, v = so.cells[k]
                    if k >= a and k + m <= b: new.append((k - a, m, v))
                    elif k + m > a and k < b:
                        for i in range(m):
                            if a <= k + i < b: new.append((k + i - a, 1, self.byte_of((m, v), i)))
                self.clear(do, d.off, n)
                if so.tag == 'extern': raise Unsupported('memcpy from extern')
                for (r, m, v) in new: do.cells[d.off + r] = (m, v)
                return
        # via arrays
        es = so.es if so.kind == 'array' else do.es if do.kind == 'array' else None
        if es is None: 
            es = 1
            for cand in (8, 4, 2):
                if n % cand == 0 and (isinstance(so.size, int) and so.size % cand == 0):
                    es = cand; break
        if n % es == 0 and n // es <= 256:
            vals = [self.load(st, Ptr(s.oid, lin_add(s.off, i)), INT(8 * es)) for i in range(0, n, es)]
            for k, v in enumerate(vals): self.store(st, Ptr(d.oid, lin_add(d.off, k * es)), v, INT(8 * es))
            return
        return self.memcpy_sym(st, d, do, s, so, n, what)

    def div_term(self, st, n, es):
        """n / es as an index term, with divisibility obligation when not syntactic"""
        if not is_sym(n):
            if n % es: raise Unsupported('memcpy length')
            return self.kidx(n // es)
        d = self.poly_div(n, es) if self.mode == 'int' else self.bv_div(z3.simplify(n), 1, es)
        if d is not None: return d
        if self.mode == 'int':
            self.oblige(st, n % es == 0, 'bulk-divisible', 'length multiple of element size'); return n / es
        self.oblige(st, z3.URem(n, z3.BitVecVal(es, 64)) == 0, 'bulk-divisible', 'length multiple of element size')
        return z3.UDiv(n, z3.BitVecVal(es, 64))

    def memcpy_sym(self, st, d, do, s, so, n, what):
        N = n if is_sym(n) else self.kidx(n)
        if do.kind == 'cells' and so.kind == 'cells' and isinstance(so.size, int) and isinstance(do.size, int) and max(so.size, do.size) <= 512:
            if not isinstance(s.off, int): s = Ptr(s.oid, self.conc_any(st, s.off))
            if not isinstance(d.off, int): d = Ptr(d.oid, self.conc_any(st, d.off))
            if not is_sym(n): return self.memcpy(st, d, s, n, what)
        if do.kind == 'cells' and so.kind == 'cells' and isinstance(s.off, int) and isinstance(d.off, int):
            # concretise small symbolic lengths
            if isinstance(so.size, int) and isinstance(do.size, int) and max(so.size, do.size) <= 4096:
                r = self.check(st)
                if r != z3.sat: raise Dead('infeasible')
                v = self.last_model.eval(N, model_completion=True).as_long()
                if self.decide(st, N == v): return self.memcpy(st, d, s, v, what)
                raise Fork(N == v)
        es = so.es if so.kind == 'array' else do.es if do.kind == 'array' else 1
        et = so.et or do.et
        for q, ob in ((s, so), (d, do)):
            if ob.kind != 'array':
                if ob.et is None: ob.et = et
                if not self.to_array(st, ob, es): raise Unsupported('memcpy between incompatible objects %s' % ob.name)
        so = st.mem[s.oid]; do = st.mem[d.oid]
        if so.es != do.es: raise Unsupported('memcpy element size mismatch')
        C = self.div_term(st, n, es)
        si = self.elem_index(s.off, es); di = self.elem_index(d.off, es)
        if si is None or di is None: raise Unsupported('memcpy misaligned')
        for o, ix in ((so, si), (do, di)):
            if not o.live: self.oblige(st, 0, 'use-after-free', what)
            cnt = o.count if is_sym(o.count) else self.kidx(o.count)
            self.oblige(st, z3.Or(C == 0, z3.And(C >= 0, ix >= 0, ix + C <= cnt)), 'bounds', what)
        if d.oid == s.oid and what == 'memcpy':
            self.oblige(st, z3.Or(C == 0, si == di, si + C <= di, di + C <= si), 'overlap', what)
        do = self.wobj(st, d.oid)
        if do.const: self.oblige(st, 0, 'write-to-const', do.name)
        if do.wlog is not None: do.wlog.append(('range', di, C))
        j = self.fresh(self.ielem, 'j')
        sa, da = so.arr, do.arr
        if sa.sort() != da.sort(): raise Unsupported('memcpy sort mismatch')
        do.arr = z3.Lambda([j], z3.If(z3.And(j >= di, j < di + C), z3.Select(sa, z3.simplify(j - di + si)), z3.Select(da, j)))

    def memset(self, st, d, v, n):
        if not is_sym(n) and n == 0: return
        d, o = self.getobj(st, d, 'memset')
        if is_sym(v): v = self.norm(v, 8)
        if not is_sym(n) and o.kind == 'cells' and isinstance(d.off, int) and isinstance(o.size, int):
            self.size_ok(st, o, d.off, n, 'memset')
            o = self.wobj(st, d.oid)
            if o.wlog is not None: o.wlog.append((d.off, n))
            self.clear(o, d.off, n)
            i = 0
            # use 4-byte cells where possible, reads at other widths are assembled
            w = {}
            while i < n:
                m = 8 if n - i >= 8 and (d.off + i) % 8 == 0 else 4 if n - i >= 4 and (d.off + i) % 4 == 0 else 1
                if is_sym(v): m = 1
                o.cells[d.off + i] = (m, v * (0x0101010101010101 & ((1 << (8 * m)) - 1)) if not is_sym(v) else v)
                i += m
            return
        if o.kind == 'cells' and not isinstance(n, int) and isinstance(d.off, int) and isinstance(o.size, int) and o.size <= 512:
            N = n
            r = self.check(st)
            if r != z3.sat: raise Dead('infeasible')
            x = self.last_model.eval(N, model_completion=True).as_long()
            if self.decide(st, N == x): return self.memset(st, d, v, x)
            raise Fork(N == x)
        es = o.es if o.kind == 'array' else (o.et and 1) or 1
        if o.kind != 'array':
            if not self.to_array(st, o, es): raise Unsupported('memset object')
            o = st.mem[d.oid]; es = o.es
        C = self.div_term(st, n, es); di = self.elem_index(d.off, es)
        cnt = o.count if is_sym(o.count) else self.kidx(o.count)
        self.oblige(st, z3.Or(C == 0, z3.And(C >= 0, di >= 0, di + C <= cnt)), 'bounds', 'memset')
        rs = o.arr.sort().range()
        if is_sym(v):
            if rs == z3.IntSort(): 
                if es != 1: raise Unsupported('memset symbolic')
                val = v
            else: val = z3.Concat(*([v] * es)) if es > 1 else v
        else:
            x = v * (0x0101010101010101 & ((1 << (8 * es)) - 1))
            val = z3.IntVal(sgn(x, 8 * es)) if rs == z3.IntSort() else z3.BitVecVal(x, 8 * es)
        o = self.wobj(st, d.oid)
        j = self.fresh(self.ielem, 'j')
        da = o.arr
        o.arr = z3.Lambda([j], z3.If(z3.And(j >= di, j < di + C), val, z3.Select(da, j)))

    # ------------------------------------------------------------------ execution
    def push(self, st, fname, args, dest=None, normal=None, unwind=None, onret=None):
        fn = self.mod.fns[fname]
        self.mod.body(fn)
        self.fns_run[fname] = self.fns_run.get(fname, 0) + 1
        if len(st.frames) > 200: raise Unsupported('recursion depth')
        f = Frame()
        f.fn = fn; f.label = fn.entry; f.code = fn.blocks[fn.entry]; f.idx = 0; f.prev = None
        f.dest = dest; f.normal = normal; f.unwind = unwind; f.allocas = []; f.visits = {}; f.onret = onret; f.cuts = {}
        regs = {}
        for (ty, nm, bv), v in zip(fn.params, args):
            if bv is not None:
                o = self.newobj(st, sizeof(bv), 'stack', 'byval')
                f.allocas.append(o.oid)
                self.memcpy(st, Ptr(o.oid, 0), v, sizeof(bv))
                v = Ptr(o.oid, 0)
            regs[nm] = v
        f.regs = regs
        st.frames.append(f)

    def ev(self, st, fr, op, ty):
        if op[0] == 'r':
            return fr.regs[op[1]]
        v = op[1]
        if type(v) is int: return v
        return self.cval(v, ty)

    def clone_state(self, st):
        n = State.__new__(State)
        n.frames = [f.clone() for f in st.frames]
        n.mem = dict(st.mem)
        n.pc = list(st.pc)
        self.uid += 1; n.uid = self.uid
        self.uid += 1; st.uid = self.uid
        n.inputs = list(st.inputs); n.covers = set(st.covers); n.caught = list(st.caught); n.decided = dict(st.decided)
        n.ghost = dict(st.ghost); n.steps = st.steps; n.nondet = st.nondet; n.trace = list(st.trace)
        n.seqs = dict(st.seqs)
        return n

    def new_state(self):
        st = State.__new__(State)
        st.frames = []; st.mem = dict(self.base_mem); st.pc = []
        self.uid += 1; st.uid = self.uid
        st.inputs = []; st.covers = set(); st.caught = []; st.decided = {}; st.ghost = {}; st.steps = 0; st.nondet = 0; st.trace = []; st.seqs = {}
        return st

    def jump(self, st, fr, target):
        prev = fr.label
        fn = fr.fn
        code = fn.blocks[target]
        # loop bookkeeping
        hdrs = self.loops_of(fn)
        if target in hdrs:
            back = prev in hdrs[target]
            if not back: fr.visits[target] = 0
            else:
                fr.visits[target] = fr.visits.get(target, 0) + 1
        # phis
        i = 0; vals = []
        for ins in code:
            if ins.op != 'phi': break
            vals.append((ins.dest, self.ev(st, fr, ins.x[prev], ins.ty)))
            i += 1
        for d, v in vals: fr.regs[d] = v
        fr.prev = prev; fr.label = target; fr.code = code; fr.idx = i
        if target in hdrs and fr.visits[target] > self.max_unroll:
            if st.ghost.get('symbolic_loop', True):
                n = fr.visits[target]
                if n > self.max_unroll and not self.loop_concrete(fr, target):
                    self.incomplete.append('unwinding bound %d reached in %s' % (self.max_unroll, fn.dem[:120]))
                    raise Dead('unwind')

    def loop_concrete(self, fr, target):
        # loops whose trip count is concrete may run on (bounded by max_steps)
        return fr.cuts.get(('symbr', target)) is None

    def loops_of(self, fn):
        if fn.loops is not None: return fn.loops
        # back edges via DFS dominators (natural loops on reducible CFG): header -> set of latch labels
        succ = {}
        for lab in fn.order:
            t = fn.blocks[lab][-1]
            if t.op == 'jmp': s = [t.x]
            elif t.op == 'br': s = list(t.x)
            elif t.op == 'switch': s = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke': s = [t.x[1], t.x[2]]
            else: s = []
            succ[lab] = s
        hd = {}
        color = {}
        stack = [(fn.entry, iter(succ[fn.entry]))]
        color[fn.entry] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1: hd.setdefault(s, set()).add(n)
                elif s not in color:
                    color[s] = 1; stack.append((s, iter(succ[s]))); break
            else:
                color[n] = 2; stack.pop()
        fn.loops = hd
        fn.cache['succ'] = succ
        return hd

    def loop_body(self, fn, header):
        key = ('body', header)
        if key in fn.cache: return fn.cache[key]
        hd = self.loops_of(fn)
        succ = fn.cache['succ']
        pred = {}
        for a, ss in succ.items():
            for b in ss: pred.setdefault(b, set()).add(a)
        body = {header}
        work = [l for l in hd[header]]
        while work:
            x = work.pop()
            if x in body: continue
            body.add(x)
            work += list(pred.get(x, ()))
        fn.cache[key] = body
        return body

    def explore(self, entry, args=(), setup=None):
        st = self.new_state()
        self.work = [st]
        self.cur = None
        t0 = time.time()
        try:
            for f in getattr(self.mod, 'ctors', ()): self.run_concrete(st, f)
            if setup: setup(st)
            self.push(st, entry, args)
            while self.work:
                st = self.work.pop()
                self.cur = st
                self.run_path(st)
                self.cur = None
                if self.paths > self.max_paths:
                    self.incomplete.append('path limit'); break
                if self.stop_on_fail and len(self.failures) >= 3:
                    self.incomplete.append('stopped after failures'); break
        except TimeoutError as e:
            self.incomplete.append(str(e))
        self.wall = time.time() - t0

    def run_concrete(self, st, name):
        # static initialisers: executed before the contract; they take no input, so there is one path
        self.push(st, name, ())
        try:
            while st.frames:
                fr = st.frames[-1]
                ins = fr.code[fr.idx]
                self.handlers[ins.op](self, st, fr, ins)
        except Fork:
            raise TimeoutError('static initialiser %s branches symbolically in %s' % (name, self.where(st)))
        except Dead:
            raise TimeoutError('static initialiser %s stops' % name)
        except Unsupported as u:
            raise TimeoutError('static initialiser %s: unsupported %s in %s' % (name, u, self.where(st)))
        st.steps = 0

    def run_path(self, st):
        self.paths += 1
        H = self.handlers
        try:
            while st.frames:
                fr = st.frames[-1]
                ins = fr.code[fr.idx]
                st.steps += 1
                if st.steps > self.max_steps: raise Unsupported('step limit')
                try:
                    H[ins.op](self, st, fr, ins)
                except Fork as f:
                    c = f.cond
                    b = self.clone_state(st)
                    # mark symbolic branching inside loops (for the unwinding obligation)
                    b.pc.append(z3.Not(c)); b.decided[c.get_id()] = (False, c)
                    st.pc.append(c); st.decided[c.get_id()] = (True, c)
                    for s in (st, b):
                        for q in s.frames:
                            for h in q.visits: q.cuts[('symbr', h)] = 1
                    self.work.append(b)
            self.paths_done += 1
            for c in st.covers: self.covers[c] = self.covers.get(c, 0) + 1
        except Dead as d:
            for c in st.covers: self.covers[c] = self.covers.get(c, 0) + 1
        except Unsupported as u:
            w = self.where(st)
            self.incomplete.append('unsupported: %s in %s' % (u, w[:160]))
            self.log('UNSUPPORTED %s in %s; stack %s' % (u, w[:160], [f.fn.dem[:60] for f in st.frames][-6:]))

    # instruction handlers ------------------------------------------------------
    def i_bin(self, st, fr, ins):
        ty = ins.ty
        a = self.ev(st, fr, ins.a[0], ty); b = self.ev(st, fr, ins.a[1], ty)
        fr.regs[ins.dest] = self.bin_t(st, ins.op, a, b, ty, ins.flags)
        fr.idx += 1

    def bin_t(self, st, op, a, b, ty, flags):
        if ty.k == 'vec':
            if a is UNDEF: a = (UNDEF,) * ty.n
            if b is UNDEF: b = (UNDEF,) * ty.n
            return tuple(self.bin_t(st, op, x, y, ty.e, flags) for x, y in zip(a, b))
        if op[0] == 'f': return self.fbin(st, op, a, b, ty.k)
        return self.binop(st, op, a, b, ty.n, flags)

    def i_icmp(self, st, fr, ins):
        ty = ins.ty
        a = self.ev(st, fr, ins.a[0], ty); b = self.ev(st, fr, ins.a[1], ty)
        if ty.k == 'vec': r = tuple(self.cmp(st, ins.x, x, y, ty.e.n) for x, y in zip(a, b))
        else: r = self.cmp(st, ins.x, a, b, ty.n if ty.k == 'int' else 64)
        fr.regs[ins.dest] = r
        fr.idx += 1

    def i_fcmp(self, st, fr, ins):
        ty = ins.ty
        a = self.ev(st, fr, ins.a[0], ty); b = self.ev(st, fr, ins.a[1], ty)
        if ty.k == 'vec': r = tuple(self.fcmp(st, ins.x, x, y, ty.e.k) for x, y in zip(a, b))
        else: r = self.fcmp(st, ins.x, a, b, ty.k)
        fr.regs[ins.dest] = r
        fr.idx += 1

    def i_fneg(self, st, fr, ins):
        a = self.ev(st, fr, ins.a[0], ins.ty)
        def neg(v, k):
            n = {'float': 32, 'double': 64, 'half': 16}[k]
            if not is_sym(v): return v ^ (1 << (n - 1))
            return z3.simplify(v ^ z3.BitVecVal(1 << (n - 1), n))
        fr.regs[ins.dest] = tuple(neg(x, ins.ty.e.k) for x in a) if ins.ty.k == 'vec' else neg(a, ins.ty.k)
        fr.idx += 1

    def i_freeze(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.ty)
        if v is UNDEF and ins.ty.k == 'int': v = self.havoc(st, ins.ty.n)
        fr.regs[ins.dest] = v
        fr.idx += 1

    def i_load(self, st, fr, ins):
        p = self.ev(st, fr, ins.a[0], PTR)
        fr.regs[ins.dest] = self.load(st, p if isinstance(p, Ptr) else self.intptr_or_fail(st, p), ins.ty)
        fr.idx += 1

    def intptr_or_fail(self, st, p):
        if p is UNDEF: self.oblige(st, 0, 'uninitialised-pointer', 'load/store')
        return self.intptr(st, p)

    def i_store(self, st, fr, ins):
        p = self.ev(st, fr, ins.a[1], PTR)
        v = self.ev(st, fr, ins.a[0], ins.ty)
        self.store(st, p if isinstance(p, Ptr) else self.intptr_or_fail(st, p), v, ins.ty)
        fr.idx += 1

    def i_gep(self, st, fr, ins):
        p = self.ev(st, fr, ins.a[0], PTR)
        if p is UNDEF: fr.regs[ins.dest] = UNDEF; fr.idx += 1; return
        if not isinstance(p, Ptr): p = self.intptr(st, p)
        c, var = ins.x
        off = lin_add(p.off, c) if c else p.off
        for sc, v, n in var:
            x = self.ev(st, fr, v, INT(n))
            if x is UNDEF: x = self.havoc(st, n)
            if isinstance(x, Ptr): x = self.ptrint(x)
            if not is_sym(x): off = lin_add(off, sgn(x, n) * sc)
            elif z3.is_bool(x): off = lin_add(off, self.scale(self.to_lin(self.norm(self.sv(x, n), n), n), sc))
            else: off = lin_add(off, self.scale(self.to_lin(x, n), sc))
        fr.regs[ins.dest] = Ptr(p.oid, off)
        fr.idx += 1

    def scale(self, l, s):
        if isinstance(l, int): return l * s
        if s == 0: return 0
        return Lin(l.c * s, {k: (a * s, t) for k, (a, t) in l.ts.items()})

    def i_br(self, st, fr, ins):
        c = self.ev(st, fr, ins.a[0], I1)
        if c is UNDEF:
            c = self.fresh(z3.BoolSort(), 'undefbr'); 
            self.oblige(st, 0, 'uninitialised-branch', 'branch on undefined value')
        if is_sym(c):
            for h in fr.visits: fr.cuts[('symbr', h)] = 1
        self.jump(st, fr, ins.x[0] if self.decide(st, c) else ins.x[1])

    def i_jmp(self, st, fr, ins): self.jump(st, fr, ins.x)

    def i_switch(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.ty)
        n = ins.ty.n
        if not is_sym(v):
            for c, l in ins.x[1]:
                if c == v: self.jump(st, fr, l); return
            self.jump(st, fr, ins.x[0]); return
        for c, l in ins.x[1]:
            if self.decide(st, self.cmp(st, 'eq', v, c, n)): self.jump(st, fr, l); return
        self.jump(st, fr, ins.x[0])

    def quiet_load(self, st, p, ty):
        """the value at an address known to be readable, UNDEF otherwise"""
        o = st.mem.get(p.oid)
        if o is None or not o.live or not o.init or type(o.size) is not int or p.off < 0 or p.off + sizeof(ty) > o.size: return UNDEF
        return self.load(st, p, ty)

    def used_once(self, fr, dest):
        u = fr.fn.cache.get('uses')
        if u is None:
            u = fr.fn.cache['uses'] = {}
            def walk(x):
                if type(x) in (tuple, list):
                    if len(x) == 2 and x[0] == 'r' and type(x[1]) is str: u[x[1]] = u.get(x[1], 0) + 1
                    else:
                        for y in x: walk(y)
            for b in fr.fn.blocks.values():
                for i in b: walk(i.a); walk(i.x)
        return u.get(dest, 0) == 1

    def i_select(self, st, fr, ins):
        c = self.ev(st, fr, ins.a[0], ins.x); a = self.ev(st, fr, ins.a[1], ins.ty); b = self.ev(st, fr, ins.a[2], ins.ty)
        if is_sym(c) and isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.off, int) and isinstance(b.off, int) and a.oid != 0 and b.oid != 0:
            # a chosen address that is only read next: the choice of the two values
            blk = fr.code; nx = blk[fr.idx + 1] if fr.idx + 1 < len(blk) else None
            if nx is not None and nx.op == 'load' and nx.a[0] == ('r', ins.dest) and nx.ty.k in ('int', 'float', 'double') and self.used_once(fr, ins.dest):
                va, vb = self.quiet_load(st, a, nx.ty), self.quiet_load(st, b, nx.ty)
                if va is not UNDEF and vb is not UNDEF and not isinstance(va, Ptr) and not isinstance(vb, Ptr):
                    fr.regs[nx.dest] = self.sel(st, c, va, vb, nx.ty)
                    fr.idx += 2; return
        if isinstance(c, tuple):
            r = tuple(self.sel(st, x, y, z, ins.ty.e) for x, y, z in zip(c, a, b))
        else: r = self.sel(st, c, a, b, ins.ty)
        fr.regs[ins.dest] = r
        fr.idx += 1

    def sel(self, st, c, a, b, ty):
        if not is_sym(c): return a if c else b
        if a is b: return a
        if ty.k in ('ptr', 'struct', 'arr') or isinstance(a, Ptr) or isinstance(b, Ptr) or a is UNDEF or b is UNDEF:
            return a if self.decide(st, c) else b
        if ty.k == 'vec': return tuple(self.sel(st, c, x, y, ty.e) for x, y in zip(a, b))
        if ty.k == 'int' and ty.n == 1: return bsimp(z3.If(c, mkbool(a), mkbool(b)))
        if ty.k == 'int': return self.norm(z3.If(c, self.sv(a, ty.n), self.sv(b, ty.n)), ty.n)
        return z3.simplify(z3.If(c, self.fv(a, ty.k), self.fv(b, ty.k)))

    def i_cast(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.x)
        if ins.op == 'bitcast' and (ins.x.k == 'vec' or ins.ty.k == 'vec'):
            r = self.vbitcast(st, v, ins.x, ins.ty)
        else: r = self.cast(st, ins.op, v, ins.x, ins.ty)
        fr.regs[ins.dest] = r
        fr.idx += 1

    def vbitcast(self, st, v, t, t2):
        if v is UNDEF: return v
        if t.k == 'vec' and t2.k == 'vec' and sizeof(t.e) == sizeof(t2.e): return v
        if t.k == 'vec':
            es = sizeof(t.e)
            bs = [self.byte_of((es, x), i) for x in v for i in range(es)]
        else: bs = [self.byte_of((sizeof(t), v), i) for i in range(sizeof(t))]
        if t2.k == 'vec':
            es = sizeof(t2.e)
            return tuple(self.assemble(bs[i:i + es], es) for i in range(0, len(bs), es))
        return self.assemble(bs, len(bs))

    def i_alloca(self, st, fr, ins):
        n = sizeof(ins.ty)
        if ins.a:
            c = self.ev(st, fr, ins.a[0], I64)
            if is_sym(c): raise Unsupported('dynamic alloca')
            n *= c
        o = self.newobj(st, n, 'stack', '%s' % ins.dest)
        fr.allocas.append(o.oid)
        fr.regs[ins.dest] = Ptr(o.oid, 0)
        fr.idx += 1

    def i_ret(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.ty) if ins.a else None
        self.do_return(st, v)

    def do_return(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        if fr.onret: 
            v = fr.onret(self, st, v)
        if not st.frames: return
        c = st.frames[-1]
        if fr.dest is not None: c.regs[fr.dest] = v
        if fr.normal is not None: self.jump(st, c, fr.normal)
        elif fr.normal is None and fr.unwind is None: c.idx += 1

    def i_unreachable(self, st, fr, ins):
        self.oblige(st, 0, 'unreachable', 'unreachable instruction reached')

    def i_extractvalue(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.ty)
        for i in ins.x: v = UNDEF if v is UNDEF else v[i]
        fr.regs[ins.dest] = v
        fr.idx += 1

    def i_insertvalue(self, st, fr, ins):
        def go(agg, ty, idx, v):
            if agg is UNDEF:
                n = len(ty.fields) if ty.k == 'struct' else ty.n
                agg = (UNDEF,) * n
            i = idx[0]
            sub = ty.fields[i] if ty.k == 'struct' else ty.e
            nv = v if len(idx) == 1 else go(agg[i], sub, idx[1:], v)
            return agg[:i] + (nv,) + agg[i + 1:]
        a = self.ev(st, fr, ins.a[0], ins.ty)
        t = ins.ty
        for i in ins.x: t = t.fields[i] if t.k == 'struct' else t.e
        v = self.ev(st, fr, ins.a[1], t)
        fr.regs[ins.dest] = go(a, ins.ty, ins.x, v)
        fr.idx += 1

    def i_extractelement(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.ty); i = self.ev(st, fr, ins.a[1], I64)
        if is_sym(i): raise Unsupported('symbolic extractelement')
        fr.regs[ins.dest] = UNDEF if v is UNDEF else v[i]
        fr.idx += 1

    def i_insertelement(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.ty); x = self.ev(st, fr, ins.a[1], ins.ty.e); i = self.ev(st, fr, ins.a[2], I64)
        if v is UNDEF: v = (UNDEF,) * ins.ty.n
        if is_sym(i): raise Unsupported('symbolic insertelement')
        fr.regs[ins.dest] = v[:i] + (x,) + v[i + 1:]
        fr.idx += 1

    def i_shufflevector(self, st, fr, ins):
        a = self.ev(st, fr, ins.a[0], ins.ty); b = self.ev(st, fr, ins.a[1], ins.ty)
        n = ins.ty.n
        if a is UNDEF: a = (UNDEF,) * n
        if b is UNDEF: b = (UNDEF,) * n
        mt, mv, _ = ins.x
        m = self.ev(st, fr, mv, mt)
        if m is UNDEF: m = (UNDEF,) * mt.n
        fr.regs[ins.dest] = tuple(UNDEF if i is UNDEF else (a + b)[i] for i in m)
        fr.idx += 1

    def i_atomicrmw(self, st, fr, ins):
        p = self.ev(st, fr, ins.a[0], PTR); v = self.ev(st, fr, ins.a[1], ins.ty)
        old = self.load(st, p, ins.ty)
        if ins.x == 'xchg': new = v
        else: new = self.binop(st, ins.x, old, v, ins.ty.n, ())
        self.store(st, p, new, ins.ty)
        fr.regs[ins.dest] = old
        fr.idx += 1

    def i_cmpxchg(self, st, fr, ins):
        p = self.ev(st, fr, ins.a[0], PTR); c = self.ev(st, fr, ins.a[1], ins.ty); v = self.ev(st, fr, ins.a[2], ins.ty)
        old = self.load(st, p, ins.ty)
        if self.decide(st, self.cmp(st, 'eq', old, c, 64)):
            self.store(st, p, v, ins.ty); ok = 1
        else: ok = 0
        fr.regs[ins.dest] = (old, ok)
        fr.idx += 1

    def i_asm(self, st, fr, ins):
        if ins.dest: raise Unsupported('inline asm')
        fr.idx += 1

    def i_phi(self, st, fr, ins): raise Unsupported('phi in middle')

    # exceptions ------------------------------------------------------------------
    def throw(self, st, exc, ti):
        """unwind: exc Ptr, ti typeinfo name"""
        # a contract-call frame may intercept
        while st.frames:
            fr = st.frames[-1]
            ins = fr.code[fr.idx] if fr.idx < len(fr.code) else None
            # the frame on top is executing a call/invoke/resume
            if ins is not None and ins.op == 'invoke':
                lab = ins.x[2]
                pad = next(i for i in fr.fn.blocks[lab] if i.op != 'phi')
                self.jump(st, fr, lab)
                assert pad.op == 'landingpad', pad
                sel = self.match(pad, ti)
                if sel is None and not pad.x[0]:
                    # no clause: continue unwinding
                    self.pop_frame(st); continue
                fr.regs[pad.dest] = (exc, (sel or 0) & 0xffffffff)
                fr.idx = fr.code.index(pad) + 1
                st.ghost['inflight'] = (exc, ti)
                return
            self.pop_frame(st)
        self.oblige(st, 0, 'uncaught-exception', ti)
        raise Dead('uncaught')

    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas: st.mem.pop(oid, None)

    def tid(self, name):
        if name not in self.typeids: self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def bases(self, ti):
        seen = [ti]; i = 0
        while i < len(seen):
            t = seen[i]; i += 1
            if t in STD_BASES: seen.append(STD_BASES[t])
            if t in self.mod.gdef:
                try: ty, init, _ = self.mod.ginit(t)
                except Exception: continue
                if isinstance(init, tuple):
                    for x in init[2:]:
                        if isinstance(x, Sym) and x.name and x.name.startswith('_ZTI') and x.name not in seen: seen.append(x.name)
        return seen

    def match(self, pad, ti):
        bs = self.bases(ti)
        for kind, c in pad.x[1]:
            if kind == 'catch':
                if isinstance(c, Sym) and c.name is None: return self.tid('...')
                if c.name in bs: return self.tid(c.name)
            else: return None
        return None

    def i_landingpad(self, st, fr, ins): raise Unsupported('landingpad by fallthrough')

    def i_resume(self, st, fr, ins):
        v = self.ev(st, fr, ins.a[0], ins.ty)
        exc, ti = st.ghost['inflight']
        self.pop_frame(st)
        if not st.frames:
            self.oblige(st, 0, 'uncaught-exception', ti); raise Dead('uncaught')
        self.throw(st, exc, ti)

    # calls ------------------------------------------------------------------------
    def i_call(self, st, fr, ins):
        cal, normal, unwind = ins.x
        if cal[0] == 'f': name = cal[1]
        else:
            p = self.ev(st, fr, cal, PTR)
            if p is UNDEF: self.oblige(st, 0, 'uninitialised-pointer', 'indirect call')
            if not isinstance(p, Ptr): p = self.intptr(st, p)
            name = self.fnoid.get(p.oid)
            if name is None:
                n2 = self.gname.get(p.oid)
                if n2: name = n2
                else: self.oblige(st, 0, 'bad-indirect-call', 'call through invalid pointer')
        if name in self.mod.aliases:
            a = self.mod.aliases[name]
            if isinstance(a, Sym): name = a.name
        if name.startswith('llvm.'):
            r = self.intrinsic(st, fr, ins, name)
            if ins.dest is not None: fr.regs[ins.dest] = r
            fr.idx += 1
            return
        h = self.replace.get(name)
        cn = st.ghost.get('in_contract')
        if h is not None and not any(f.fn.name == h for f in st.frames) if isinstance(h, str) else h is not None:
            self.contracts_used[name] = self.contracts_used.get(name, 0) + 1
            if isinstance(h, str):
                args = [self.ev(st, fr, a[1], a[0]) for a in ins.a]
                self.push(st, h, args, ins.dest, normal, unwind)
                return
            args = [self.ev(st, fr, a[1], a[0]) for a in ins.a]
            r = h(self, st, args, ins)
            return self.finish_call(st, fr, ins, r)
        b = self.builtin(name)
        if b is not None:
            args = [self.ev(st, fr, a[1], a[0]) for a in ins.a]
            r = b(self, st, args, ins, name)
            if r is THROWN: return
            if r is not NotImplemented: return self.finish_call(st, fr, ins, r)
        fn = self.mod.fns.get(name)
        if fn is None or fn.decl:
            raise Unsupported('external function %s' % self.dem.get(name, name)[:160])
        args = [self.ev(st, fr, a[1], a[0]) for a in ins.a]
        self.push(st, name, args, ins.dest, normal, unwind)

    def finish_call(self, st, fr, ins, r):
        if ins.dest is not None: fr.regs[ins.dest] = r
        if ins.op == 'invoke': self.jump(st, fr, ins.x[1])
        else: fr.idx += 1

    def builtin(self, name):
        b = self.bcache.get(name)
        if b is not None: return b if b != 0 else None
        b = find_builtin(self, name)
        self.bcache[name] = b if b is not None else 0
        return b

    def intrinsic(self, st, fr, ins, name):
        A = [self.ev(st, fr, a[1], a[0]) if a[0].k != 'metadata' else None for a in ins.a]
        base = name.split('.')[1]
        if base in ('lifetime', 'dbg', 'assume', 'prefetch', 'invariant', 'donothing', 'experimental', 'stackrestore', 'va_start', 'va_end'):
            return None
        if base == 'stacksave': return Ptr(0, 0)
        if base == 'memcpy' or base == 'memmove':
            self.memcpy(st, A[0], A[1], A[2], base); return None
        if base == 'memset':
            self.memset(st, A[0], A[1], A[2]); return None
        if base == 'expect': return A[0]
        if base == 'trap':
            self.oblige(st, 0, 'trap', 'llvm.trap'); raise Dead('trap')
        if base == 'eh': 
            if 'typeid' in name:
                p = A[0]
                return self.tid(self.gname[p.oid])
        n = ins.ty.n if ins.ty.k == 'int' else 0
        if base in ('smax', 'smin', 'umax', 'umin'):
            c = self.cmp(st, {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[base], A[0], A[1], n)
            return self.sel(st, c, A[0], A[1], ins.ty)
        if base == 'abs':
            c = self.cmp(st, 'slt', A[0], 0, n)
            return self.sel(st, c, self.binop(st, 'sub', 0, A[0], n, ('nsw',)), A[0], ins.ty)
        if base in ('umul', 'smul', 'uadd', 'sadd', 'usub', 'ssub') and 'overflow' in name:
            w = ins.a[0][0].n
            op = base[1:]
            if not is_sym(A[0]) and not is_sym(A[1]):
                x, y = (A[0], A[1]) if base[0] == 'u' else (sgn(A[0], w), sgn(A[1], w))
                r = x * y if op == 'mul' else x + y if op == 'add' else x - y
                ov = int(not ((0 <= r < (1 << w)) if base[0] == 'u' else (-(1 << (w - 1)) <= r < (1 << (w - 1)))))
                return (r & ((1 << w) - 1), ov)
            if self.mode == 'int':
                if base[0] == 'u': x, y = self.uval(st, A[0], w), self.uval(st, A[1], w)
                else: x, y = self.sv(A[0], w), self.sv(A[1], w)
                r = z3.simplify(x * y if op == 'mul' else x + y if op == 'add' else x - y, som=True)
                ok = z3.And(r >= 0, r < (1 << w)) if base[0] == 'u' else z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1)))
                if self.proves(st, z3.And(ok, r < (1 << (w - 1)))): return (r, 0)
                return (self.srange(st, r, w), bsimp(z3.Not(ok)))
            X, Y = self.sv(A[0], w), self.sv(A[1], w)
            sg = base[0] == 's'
            if op == 'mul': r = X * Y; ok = z3.And(z3.BVMulNoOverflow(X, Y, sg), z3.BVMulNoUnderflow(X, Y)) if sg else z3.BVMulNoOverflow(X, Y, False)
            elif op == 'add': r = X + Y; ok = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)) if sg else z3.BVAddNoOverflow(X, Y, False)
            else: r = X - Y; ok = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True)) if sg else z3.ULE(Y, X)
            return (self.norm(r, w), bsimp(z3.Not(ok)))
        if base in ('floor', 'ceil', 'sqrt', 'fabs', 'exp', 'log', 'pow', 'trunc', 'round', 'fma', 'fmuladd', 'maxnum', 'minnum', 'rint', 'nearbyint', 'copysign', 'roundeven', 'lrint', 'sin', 'cos', 'exp2', 'log2', 'log10'):
            return self.fmath(st, base, A, ins.ty)
        if base == 'ctlz' or base == 'cttz' or base == 'ctpop':
            if not is_sym(A[0]):
                v = A[0]
                if base == 'ctlz': return n - v.bit_length()
                if base == 'ctpop': return bin(v).count('1')
                return n if v == 0 else (v & -v).bit_length() - 1
            V = self.sv_bv(A[0], n)
            if base == 'ctlz':
                r = z3.BitVecVal(n, n)
                for i in range(n): r = z3.If(z3.Extract(i, i, V) == 1, z3.BitVecVal(n - 1 - i, n), r)
                return r if self.mode == 'bv' else z3.BV2Int(r)
            raise Unsupported(name)
        if base == 'is' and 'constant' in name: return 0
        if base == 'objectsize': return (1 << 64) - 1
        if base == 'load' and 'relative' in name: raise Unsupported(name)
        if base == 'bswap' and not is_sym(A[0]):
            return int.from_bytes(A[0].to_bytes(n // 8, 'little'), 'big')
        if base == 'threadlocal': return A[0]
        if base == 'fshl' and not is_sym(A[2]):
            k = A[2] % n
            X = z3.Concat(self.sv_bv(A[0], n), self.sv_bv(A[1], n))
            return self.norm(z3.Extract(2 * n - 1 - k, n - k, X), n)
        if base == 'x86' and name.endswith(('sse.max.ps', 'sse.min.ps', 'avx.max.ps.256', 'avx.min.ps.256')):
            return tuple(self.sel(st, self.fcmp(st, 'ogt' if '.max.' in name else 'olt', x, y, 'float'), x, y, ins.ty.e) for x, y in zip(A[0], A[1]))
        if base == 'is' and 'fpclass' in name:
            return self.uf('fpclass_%s' % A[1], [self.fv(A[0], ins.a[0][0].k)], z3.BoolSort())
        raise Unsupported('intrinsic ' + name)

    def fmath(self, st, base, A, ty):
        if ty.k == 'vec':
            return tuple(self.fmath(st, base, list(x), ty.e) for x in zip(*[a for a in A]))
        k = ty.k
        if base == 'lrint': 
            return self.uf('lrint_%s' % k, A, self.isort(64))
        if k == 'int': raise Unsupported('fmath ' + base)
        n = ty.n
        if all(not is_sym(a) for a in A) and k in ('float', 'double'):
            xs = [self.cfl(a, k) for a in A]
            try:
                if base == 'floor': r = math.floor(xs[0]) if math.isfinite(xs[0]) else xs[0]
                elif base == 'ceil': r = math.ceil(xs[0]) if math.isfinite(xs[0]) else xs[0]
                elif base == 'fabs': r = abs(xs[0])
                elif base == 'sqrt': r = math.sqrt(xs[0])
                elif base == 'trunc': r = math.trunc(xs[0]) if math.isfinite(xs[0]) else xs[0]
                elif base == 'round': r = (math.floor(xs[0]) + (1 if xs[0] - math.floor(xs[0]) >= 0.5 else 0) if xs[0] >= 0 else math.ceil(xs[0]) - (1 if math.ceil(xs[0]) - xs[0] >= 0.5 else 0)) if math.isfinite(xs[0]) else xs[0]
                elif base in ('rint', 'nearbyint', 'roundeven'): r = round(xs[0]) if math.isfinite(xs[0]) else xs[0]
                elif base in ('fma', 'fmuladd'): r = float(fractions.Fraction(xs[0]) * fractions.Fraction(xs[1]) + fractions.Fraction(xs[2])) if all(math.isfinite(x) for x in xs) and (k == 'double' and xs[0] * xs[1] + xs[2]) else xs[0] * xs[1] + xs[2]
                elif base == 'maxnum' and not any(x != x for x in xs): r = max(xs)
                elif base == 'minnum' and not any(x != x for x in xs): r = min(xs)
                else: r = None
                if r == 0 and base in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'roundeven'): r = math.copysign(0.0, xs[0])
                if r is not None: return self.cbits(float(r), k)
            except (ValueError, OverflowError): pass
        if base == 'fabs':
            return z3.simplify(self.fv(A[0], k) & z3.BitVecVal((1 << (n - 1)) - 1, n))
        if base in ('floor', 'ceil', 'trunc', 'rint', 'round', 'nearbyint') and z3.is_expr(A[0]) and ('exact', A[0].get_id()) in st.ghost: return A[0]
        if base == 'fmuladd': 
            return self.fbin(st, 'fadd', self.fbin(st, 'fmul', A[0], A[1], k), A[2], k)
        if self.fp == 'ieee':
            s = self.fsort(k); x = z3.fpBVToFP(self.fv(A[0], k), s)
            f = {'floor': lambda: z3.fpRoundToIntegral(z3.RTN(), x), 'ceil': lambda: z3.fpRoundToIntegral(z3.RTP(), x), 'trunc': lambda: z3.fpRoundToIntegral(z3.RTZ(), x),
                 'rint': lambda: z3.fpRoundToIntegral(z3.RNE(), x), 'sqrt': lambda: z3.fpSqrt(z3.RNE(), x), 'round': lambda: z3.fpRoundToIntegral(z3.RNA(), x)}.get(base)
            if f: return z3.simplify(z3.fpToIEEEBV(f()))
        return self.uf('%s_%s' % (base, k), [self.fv(a, k) for a in A], z3.BitVecSort(n))


THROWN = object()
Machine.bcache = {}
H = {}
for _o in BIN: H[_o] = Machine.i_bin
for _o in CASTS: H[_o] = Machine.i_cast
for _o in ('icmp fcmp fneg freeze load store gep br jmp switch select alloca ret unreachable extractvalue insertvalue extractelement '
           'insertelement shufflevector atomicrmw cmpxchg asm phi landingpad resume call').split():
    H[_o] = getattr(Machine, 'i_' + _o)
H['invoke'] = Machine.i_call
Machine.handlers = H

from builtins_model import find_builtin   # noqa: E402
