"""Verification-condition generator for LLVM IR of the real code.

Symbolic-execution style deductive verification: every function is executed from a contract harness
(requires = vc_assume, ensures = vc_assert); calls named in `replace` are checked against the callee's
contract instead of its body; loops are cut by closed-form invariants or unwound completely (an
unwinding obligation is generated when a bound is hit).  All obligations go to z3 (cvc5 as a second
back end)."""
import z3, re, sys, time, subprocess, os, struct, math, tempfile
from llparse import *
from vals import *

z3.set_param('model.compact', False)


class Fork(Exception):
    def __init__(self, cond): self.cond = cond


class Dead(Exception):
    """path ended"""
    def __init__(self, why): self.why = why


class Obj:
    __slots__ = ('oid', 'size', 'kind', 'cells', 'es', 'arr', 'live', 'tag', 'name', 'owner', 'const', 'count', 'wlog', 'et', 'init')

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.oid = self.oid; o.size = self.size; o.kind = self.kind; o.es = self.es; o.arr = self.arr
        o.live = self.live; o.tag = self.tag; o.name = self.name; o.const = self.const; o.count = self.count
        o.cells = dict(self.cells) if self.cells is not None else None
        o.owner = owner; o.wlog = self.wlog; o.et = self.et; o.init = self.init
        return o


class Frame:
    __slots__ = ('fn', 'code', 'label', 'idx', 'regs', 'prev', 'dest', 'normal', 'unwind', 'allocas', 'visits', 'onret', 'cuts')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.code = self.code; f.label = self.label; f.idx = self.idx; f.regs = dict(self.regs)
        f.prev = self.prev; f.dest = self.dest; f.normal = self.normal; f.unwind = self.unwind
        f.allocas = list(self.allocas); f.visits = dict(self.visits); f.onret = self.onret; f.cuts = dict(self.cuts)
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'uid', 'inputs', 'covers', 'caught', 'decided', 'ghost', 'steps', 'nondet', 'trace', 'seqs')


class Failure:
    def __init__(self, kind, msg, where, inputs, status, stack=None):
        self.kind = kind; self.msg = msg; self.where = where; self.inputs = inputs; self.status = status; self.stack = stack

    def key(self): return (self.kind, self.msg, self.where)


COMM = {'fadd', 'fmul'}
STD_BASES = {
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt12system_error': '_ZTISt13runtime_error',
    '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
}
THROWERS = {
    '__throw_out_of_range': '_ZTISt12out_of_range', '__throw_out_of_range_fmt': '_ZTISt12out_of_range', '__throw_length_error': '_ZTISt12length_error',
    '__throw_logic_error': '_ZTISt11logic_error', '__throw_bad_alloc': '_ZTISt9bad_alloc', '__throw_bad_array_new_length': '_ZTISt9bad_alloc',
    '__throw_bad_function_call': '_ZTISt17bad_function_call', '__throw_invalid_argument': '_ZTISt16invalid_argument',
    '__throw_runtime_error': '_ZTISt13runtime_error', '__throw_bad_cast': '_ZTISt8bad_cast', '__throw_system_error': '_ZTISt12system_error',
    '__throw_bad_weak_ptr': '_ZTISt12bad_weak_ptr',
}


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


class Engine:
    def __init__(self, mod, mode='bv', fp='uf', max_paths=20000, max_steps=4000000, max_unroll=64, timeout_ms=10000,
                 hard_timeout=60, deadline=None, replace=None, loops=None, overflow=True, log=None, opaque=(), auto_loops=False, fork_limit=300,
                 stop_on_fail=True, strict_undef=False, gf2=False):
        self.mod = mod
        self.mode = mode; self.fp = fp
        self.gf2 = None
        if gf2:
            import gf2 as g2
            self.gf2 = g2.GF2()
        self.max_paths = max_paths; self.max_steps = max_steps; self.max_unroll = max_unroll
        self.timeout_ms = timeout_ms; self.hard_timeout = hard_timeout; self.deadline = deadline
        self.overflow = overflow
        self.auto_loops = auto_loops; self.low0 = {}
        self.fork_limit = fork_limit
        self.stop_on_fail = stop_on_fail
        self.log = log or (lambda *a: None)
        self.dem = demangle(list(mod.fns))
        for n, f in mod.fns.items(): f.dem = self.dem.get(n, n)
        self.replace = {}          # mangled -> handler
        self.contract_fns = {}
        for pat, h in (replace or {}).items():
            r = re.compile(pat)
            for n, f in mod.fns.items():
                if r.search(f.dem) and not f.name.startswith('contract_'): self.replace[n] = h
        self.loopspecs = loops or {}
        self.opaque = [re.compile(x) for x in opaque]
        self.opaque_used = {}
        self.goid = {}             # global name -> oid
        self.gname = {}
        self.base_mem = {}
        self.next_oid = 1
        self.fnoid = {}
        self.uid = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.sstack = []
        self.nq = 0; self.tq = 0.0
        self.obl_total = 0; self.obl_done = 0; self.obl_trivial = 0
        self.obl_kinds = {}
        self.backends = {}
        self.failures = []; self.failkeys = set()
        self.covers = {}
        self.paths = 0; self.paths_done = 0
        self.incomplete = []       # reasons
        self.fns_run = {}
        self.contracts_used = {}
        self.model_used = {}
        self.range_cache = {}
        self.divs = {}
        self.fresh_n = 0
        self.typeids = {}
        self.unwound = 0
        self.loop_cuts = 0
        self.keep = []
        self.ielem = z3.IntSort() if mode == 'int' else z3.BitVecSort(64)

    # ------------------------------------------------------------------ solver
    def sync(self, st):
        pc = st.pc; ss = self.sstack
        i = 0; n = min(len(pc), len(ss))
        while i < n and pc[i] is ss[i]: i += 1
        if i < len(ss):
            self.solver.pop(len(ss) - i); del ss[i:]
        for c in pc[i:]:
            self.solver.push(); self.solver.add(c); ss.append(c)

    def check(self, st, extra=None):
        if self.deadline and time.time() > self.deadline: raise TimeoutError('engine deadline')
        t = time.time()
        self.sync(st)
        self.nq += 1
        if extra is None: r = self.solver.check()
        else:
            self.solver.push(); self.solver.add(extra)
            r = self.solver.check()
            if r == z3.sat: self.last_model = self.solver.model()
            self.solver.pop()
        if extra is None and r == z3.sat: self.last_model = self.solver.model()
        dt = time.time() - t
        self.tq += dt
        if dt > 3: self.log('slow query %.1fs %s' % (dt, r))
        return r

    def hard(self, st, extra):
        """non-incremental attempt, then cvc5"""
        t = time.time()
        s = z3.Solver()
        s.set('timeout', int(self.hard_timeout * 1000))
        s.add(*st.pc); s.add(extra)
        r = s.check()
        if r == z3.sat: self.last_model = s.model()
        if r == z3.unknown:
            try:
                with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                    f.write('(set-logic ALL)\n' + s.to_smt2())
                p = subprocess.run(['cvc5', '--tlimit=%d' % int(self.hard_timeout * 1000), f.name], capture_output=True, text=True)
                os.unlink(f.name)
                o = p.stdout.strip().split('\n')[0]
                if o == 'unsat': r = z3.unsat; self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
            except OSError: pass
        self.tq += time.time() - t
        return r

    def fresh(self, sort, name='t'):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)

    def isort(self, n): return z3.IntSort() if self.mode == 'int' else z3.BitVecSort(n)

    # decide a condition on this path, forking when both outcomes are feasible
    def decide(self, st, cond):
        if not is_sym(cond): return bool(cond)
        k = cond.get_id()
        d = st.decided.get(k)
        if d is not None: return d[0]
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        r1 = self.check(st, cond)
        if r1 == z3.unsat:
            st.decided[k] = (False, cond); return False
        r0 = self.check(st, z3.Not(cond))
        if r0 == z3.unsat:
            st.decided[k] = (True, cond); return True
        raise Fork(cond)

    def proves(self, st, cond):
        if not is_sym(cond): return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        key = (c.get_id(), st.pc[-1].get_id() if st.pc else 0, len(st.pc))
        v = self.range_cache.get(key)
        if v is not None: return v[0]
        r = self.check(st, z3.Not(c)) == z3.unsat
        self.range_cache[key] = (r, c, st.pc[-1] if st.pc else None)
        return r

    def assume(self, st, cond):
        if not is_sym(cond):
            if not cond: raise Dead('assume')
            return
        c = z3.simplify(cond)
        if z3.is_true(c): return
        if z3.is_false(c): raise Dead('assume')
        st.pc.append(cond)

    def assume_feasible(self, st, cond):
        self.assume(st, cond)
        if is_sym(cond) and self.check(st) == z3.unsat: raise Dead('assume')

    def where(self, st):
        for f in reversed(st.frames):
            d = f.fn.dem
            if 'ts::' in d or 'contract' in d or d.startswith('AES') or not d.startswith('std::'): return d[:200]
        return st.frames[-1].fn.dem[:200] if st.frames else '?'

    def oblige(self, st, cond, kind, msg):
        self.obl_total += 1
        self.obl_kinds[kind] = self.obl_kinds.get(kind, 0) + 1
        if not is_sym(cond):
            if cond:
                self.obl_done += 1; self.obl_trivial += 1
                return
            c = FALSE
        else:
            if self.gf2 and self.gf2.prove(cond):
                self.obl_done += 1
                self.backends['gf2'] = self.backends.get('gf2', 0) + 1
                return
            c = z3.simplify(cond)
            if z3.is_true(c):
                self.obl_done += 1; self.obl_trivial += 1
                return
        if self.gf2 and self.gf2.prove(c):
            self.obl_done += 1
            self.backends['gf2'] = self.backends.get('gf2', 0) + 1
            return
        neg = z3.Not(c)
        r = self.check(st, neg)
        if r == z3.sat and self.gf2 and self.gf2.tables: r = z3.unknown     # tables are uninterpreted here: no refutation
        elif r == z3.unknown: r = self.hard(st, neg)
        else:
            self.backends['z3'] = self.backends.get('z3', 0) + 1
        if r == z3.unsat:
            self.obl_done += 1
            if is_sym(cond): st.pc.append(cond)
            return
        w = self.where(st)
        key = (kind, msg, w)
        if key not in self.failkeys or (r == z3.sat and len([f for f in self.failures if f.key() == key]) < 3):
            self.failkeys.add(key)
            inp = self.extract(st, self.last_model) if r == z3.sat else None
            self.failures.append(Failure(kind, msg, w, inp, 'refuted' if r == z3.sat else 'unknown',
                                         [f.fn.dem[:120] for f in st.frames]))
            self.log('FAIL %s %s %s [%s]' % (kind, msg, w, r))
        if z3.is_false(c): raise Dead('failed')
        self.assume_feasible(st, cond)

    def extract(self, st, m):
        out = []
        for (kind, name, term, extra) in st.inputs:
            if kind == 'scalar':
                if isinstance(term, int): out.append((name, 'i', [term])); continue
                v = m.eval(term, model_completion=True)
                try:
                    if z3.is_bool(v): x = 1 if z3.is_true(v) else 0
                    elif z3.is_bv(v): x = v.as_signed_long()
                    else: x = v.as_long()
                except Exception: x = 0
                out.append((name, 'i', [x]))
            else:
                cnt, es, arr, et = extra
                c = cnt if isinstance(cnt, int) else m.eval(cnt, model_completion=True)
                try: c = c if isinstance(c, int) else c.as_long()
                except Exception: c = 0
                c = max(0, min(c, 4096))
                vals = []
                for i in range(c):
                    ix = z3.IntVal(i) if self.mode == 'int' else z3.BitVecVal(i, 64)
                    v = m.eval(z3.Select(arr, ix), model_completion=True)
                    try: vals.append(v.as_long() & ((1 << (8 * es)) - 1))
                    except Exception: vals.append(0)
                out.append((name, 'a%d' % es, vals))
        return out

    # ------------------------------------------------------------------ arithmetic
    def sv(self, v, n):
        """value as theory term"""
        if is_sym(v):
            if z3.is_bool(v):
                if self.mode == 'int': return z3.If(v, z3.IntVal(1), z3.IntVal(0))
                return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
            return v
        if self.mode == 'int': return z3.IntVal(sgn(v, n))
        return z3.BitVecVal(v, n)

    def norm(self, e, n):
        """theory term -> value (concrete python int when constant)"""
        if self.gf2 and z3.is_bv(e):
            v = self.gf2.value(e)
            if v is not None: return v
            return e
        e = z3.simplify(e) if self.mode == 'bv' else z3.simplify(e, som=True)
        if z3.is_bv_value(e): return e.as_long()
        if z3.is_int_value(e): return e.as_long() & ((1 << n) - 1)
        return e

    def srange(self, st, e, n):
        """int mode: bring e into signed n-bit range"""
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if self.proves(st, z3.And(e >= lo, e <= hi)): return e
        q = self.fresh(z3.IntSort(), 'wq'); r = self.fresh(z3.IntSort(), 'wr')
        st.pc.append(z3.And(r >= lo, r <= hi, r == e - q * (1 << n)))
        return r

    def uval(self, st, v, n):
        """int mode: unsigned interpretation (z3 Int)"""
        if not is_sym(v): return z3.IntVal(v)
        v = self.sv(v, n)
        if self.proves(st, v >= 0): return v
        return z3.If(v < 0, v + (1 << n), v)

    def from_unsigned(self, st, e, n):
        """int mode: e in [0,2^n) -> signed canonical"""
        if self.proves(st, e < (1 << (n - 1))): return e
        return z3.If(e >= (1 << (n - 1)), e - (1 << n), e)

    def havoc(self, st, n, name='hv'):
        v = self.fresh(self.isort(n), name)
        if self.mode == 'int': st.pc.append(z3.And(v >= -(1 << (n - 1)), v < (1 << (n - 1))))
        return v

    def unfrag(self, st, f):
        e = z3.IntVal(0)
        for k, m, v in f.parts:
            if v is UNDEF: v = self.havoc(st, 8 * m, 'undef')
            e = e + self.uval(st, v, 8 * m) * (1 << (8 * k))
        e = z3.simplify(e, som=True)
        if z3.is_int_value(e): return e.as_long()
        return self.from_unsigned(st, e, 8 * f.n)

    def binop(self, st, op, a, b, n, flags):
        if isinstance(a, Frag):
            if op == 'lshr' and not is_sym(b) and b % 8 == 0 and any(k == b // 8 for k, _, _ in a.parts):
                s = b // 8; ps = [(k - s, m, v) for k, m, v in a.parts if k >= s]
                if len(ps) == 1: return self.cast(st, 'zext', ps[0][2], INT(8 * ps[0][1]), INT(n)) if 8 * ps[0][1] < n else ps[0][2]
            a = self.unfrag(st, a)
        if isinstance(b, Frag): b = self.unfrag(st, b)
        if isinstance(a, Ptr): a = self.ptrint(a)
        if isinstance(b, Ptr): b = self.ptrint(b)
        if a is UNDEF or b is UNDEF:
            if op not in ('and', 'or', 'xor'): return self.havoc(st, n, 'undef')
            if a is UNDEF: a = self.havoc(st, n, 'undef')   # bits set or cleared by a mask are defined
            if b is UNDEF: b = self.havoc(st, n, 'undef')
        if not is_sym(a) and not is_sym(b): return self.cbin(st, op, a, b, n, flags)
        if n == 1:
            A, B = mkbool(a), mkbool(b)
            if op == 'and': return bsimp(z3.And(A, B))
            if op == 'or': return bsimp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'): return bsimp(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if op in ('and', 'or', 'xor') and z3.is_expr(a) and False: pass
        # ptr-like integers stay terms
        if self.mode == 'int': return self.ibin(st, op, a, b, n, flags)
        A, B = self.sv(a, n), self.sv(b, n)
        if 'nsw' in flags and self.overflow and self.gf2 and op == 'mul' and self.gf2.top(A) + self.gf2.top(B) < n:
            self.obl_total += 1; self.obl_done += 1
        elif 'nsw' in flags and self.overflow and op in ('add', 'sub', 'mul'):
            if op == 'add': c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            else: c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
            self.oblige(st, c, 'signed-overflow', op)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, z3.ULT(B, n) if is_sym(b) else (b < n), 'shift-range', op)
            r = A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B
        else:
            self.oblige(st, B != 0 if is_sym(b) else b != 0, 'div-by-zero', op)
            if op in ('sdiv', 'srem') and is_sym(a) and (is_sym(b) or sgn(b, n) == -1):
                self.oblige(st, z3.Not(z3.And(A == z3.BitVecVal(1 << (n - 1), n), B == z3.BitVecVal(-1, n))), 'signed-overflow', op)
            r = {'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B), 'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B)}[op]()
        return self.norm(r, n)

    def cbin(self, st, op, a, b, n, flags):
        m = (1 << n) - 1
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags and self.overflow:
                x, y = sgn(a, n), sgn(b, n)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not -(1 << (n - 1)) <= r < (1 << (n - 1)): self.oblige(st, 0, 'signed-overflow', op)
                return r & m
            return (a + b if op == 'add' else a - b if op == 'sub' else a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= n: self.oblige(st, 0, 'shift-range', op)
            if op == 'shl': return (a << b) & m
            if op == 'lshr': return a >> b
            return (sgn(a, n) >> b) & m
        if b == 0: self.oblige(st, 0, 'div-by-zero', op)
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        if op == 'sdiv': return q & m
        return (x - q * y) & m

    def idivmod(self, st, A, B):
        """floor division facts for A >= 0, B > 0"""
        k = (A.get_id(), B.get_id())
        if k not in self.divs:
            q = self.fresh(z3.IntSort(), 'q'); r = self.fresh(z3.IntSort(), 'r')
            self.divs[k] = (q, r, A, B)
        q, r, _, _ = self.divs[k]
        st.pc.append(z3.And(A == q * B + r, 0 <= r, r < B, q >= 0, q <= A))
        return q, r

    def ibin(self, st, op, a, b, n, flags):
        A, B = self.sv(a, n), self.sv(b, n)
        if op in ('add', 'sub', 'mul'):
            r = A + B if op == 'add' else A - B if op == 'sub' else A * B
            r = z3.simplify(r, som=True)
            if z3.is_int_value(r):
                return r.as_long() & ((1 << n) - 1)
            if 'nsw' in flags:
                if self.overflow:
                    self.oblige(st, z3.And(r >= -(1 << (n - 1)), r < (1 << (n - 1))), 'signed-overflow', op)
                return r
            return self.srange(st, r, n)
        if op in ('shl', 'lshr', 'ashr') and not is_sym(b):
            if b >= n: self.oblige(st, 0, 'shift-range', op)
            if op == 'shl':
                r = self.srange(st, z3.simplify(A * (1 << b), som=True), n)
                if z3.is_expr(r):
                    self.low0[r.get_id()] = (r, b)
                    z = st.ghost.get(('zsrc', a.get_id())) if z3.is_expr(a) else None
                    if z and z[2] + b == n: st.ghost['shsrc', r.get_id()] = (r, z[1], z[2])
                return r
            if op == 'lshr' and z3.is_expr(a) and ('pack', a.get_id()) in st.ghost and st.ghost['pack', a.get_id()][3] == b:
                p = st.ghost['pack', a.get_id()]
                return self.cast(st, 'zext', p[1], INT(n - b), INT(n))
            if op == 'lshr': A = self.uval(st, a, n)
            d = self.poly_div(A, 1 << b)
            if d is not None: return self.norm(d, n)
            return self.norm(A / (1 << b), n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, B != 0 if is_sym(b) else b != 0, 'div-by-zero', op)
            if op[0] == 'u': A, B = self.uval(st, a, n), self.uval(st, b, n)
            if not is_sym(b):
                bs = b if op[0] == 'u' else sgn(b, n)
                if bs > 0:
                    d = self.poly_div(A, bs)
                    if d is not None: return self.norm(d, n) if op[1:] == 'div' else 0
                if bs > 0 and (op[0] == 'u' or self.proves(st, A >= 0)):
                    return self.norm(A / bs if op[1:] == 'div' else A % bs, n)
            if op[0] == 'u' or (self.proves(st, A >= 0) and self.proves(st, B > 0)):
                q, r = self.idivmod(st, A, B)
                return q if op[1:] == 'div' else r
            # general signed
            q = self.fresh(z3.IntSort(), 'q'); r = self.fresh(z3.IntSort(), 'r')
            ab = z3.If(B < 0, -B, B)
            st.pc.append(z3.And(A == q * B + r, z3.If(A >= 0, z3.And(0 <= r, r < ab), z3.And(-ab < r, r <= 0))))
            return q if op == 'sdiv' else r
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if not is_sym(y):
                    if (y & (y + 1)) == 0:      # low mask
                        return self.norm(self.sv(x, n) % (y + 1), n)
                    inv = (~y) & ((1 << n) - 1)
                    if (inv & (inv + 1)) == 0:
                        X = self.sv(x, n)
                        r = self.norm(X - X % (inv + 1), n)
                        if z3.is_expr(r): self.low0[r.get_id()] = (r, inv.bit_length())
                        return r
        if op == 'or':      # disjoint bits: the sum
            for x, y, Y in ((a, b, B), (b, a, A)):
                k = self.low0.get(x.get_id(), (0, 0))[1] if z3.is_expr(x) else (x & -x).bit_length() - 1 if x else 0
                z = st.ghost.get(('zsrc', y.get_id())) if z3.is_expr(y) else None
                if k and (z and z[2] <= k or self.proves(st, z3.And(Y >= 0, Y < (1 << k)))):
                    r = self.norm(self.sv(x, n) + Y, n)
                    h = st.ghost.get(('shsrc', x.get_id())) if z3.is_expr(x) else (0, x >> k, n - k)
                    if z and h and z[2] == k and h[2] == n - k and z3.is_expr(r): st.ghost['pack', r.get_id()] = (r, h[1], z[1], k)
                    return r
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if not is_sym(y) and y == (1 << n) - 1: return self.norm(-1 - self.sv(x, n), n)
        self.note('bit operation %s abstracted (int mode)' % op)
        return self.havoc(st, n, 'bit')

    def note(self, s): self.model_used[s] = self.model_used.get(s, 0) + 1

    def poly_div(self, A, d):
        """exact polynomial division of an Int term by a constant, or None"""
        A = z3.simplify(A, som=True)
        def go(t):
            if z3.is_int_value(t):
                v = t.as_long()
                return z3.IntVal(v // d) if v % d == 0 else None
            if z3.is_add(t):
                cs = [go(c) for c in t.children()]
                return None if any(c is None for c in cs) else z3.Sum(cs)
            if z3.is_mul(t):
                ch = t.children()
                if z3.is_int_value(ch[0]) and ch[0].as_long() % d == 0:
                    c = ch[0].as_long() // d
                    rest = ch[1:]
                    r = rest[0]
                    for x in rest[1:]: r = r * x
                    return c * r
            return None
        return go(A)

    def cmp(self, st, pred, a, b, n):
        if isinstance(a, Frag): a = self.unfrag(st, a)
        if isinstance(b, Frag): b = self.unfrag(st, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.pcmp(st, pred, a, b)
        if a is UNDEF or b is UNDEF: return self.fresh(z3.BoolSort(), 'undefcmp')
        if not is_sym(a) and not is_sym(b):
            if pred[0] == 's': a, b = sgn(a, n), sgn(b, n)
            p = pred[-2:] if len(pred) == 3 else pred
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if n == 1:
            A, B = mkbool(a), mkbool(b)
            if pred == 'eq': return bsimp(A == B)
            if pred == 'ne': return bsimp(A != B)
            raise Unsupported('i1 cmp')
        if self.mode == 'int':
            if pred[0] == 'u': A, B = self.uval(st, a, n), self.uval(st, b, n)
            else: A, B = self.sv(a, n), self.sv(b, n)
            p = pred[-2:]
            return bsimp({'eq': lambda: A == B, 'ne': lambda: A != B, 'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B, 'ge': lambda: A >= B}[p]())
        A, B = self.sv(a, n), self.sv(b, n)
        f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B,
             'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B)}[pred]
        return bsimp(f())

    def pcmp(self, st, pred, a, b):
        if not isinstance(a, Ptr): a = self.intptr(st, a)
        if not isinstance(b, Ptr): b = self.intptr(st, b)
        if a.oid == b.oid:
            d = lin_add(a.off, lin_neg(b.off))
            if isinstance(d, int):
                p = pred[-2:] if len(pred) == 3 else pred
                return int({'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p])
            # common positive scale factor
            g = 0
            for s, t in d.ts.values(): g = math.gcd(g, abs(s))
            if d.c % g == 0 and g > 1: d = Lin(d.c // g, {k: (s // g, t) for k, (s, t) in d.ts.items()})
            D = self.lin_term(d)
            p = pred[-2:] if len(pred) == 3 else pred
            return bsimp({'eq': D == 0, 'ne': D != 0, 'lt': D < 0, 'le': D <= 0, 'gt': D > 0, 'ge': D >= 0}[p])
        if pred == 'eq': return 0
        if pred == 'ne': return 1
        p = pred[-2:]
        return int({'lt': a.oid < b.oid, 'le': a.oid < b.oid, 'gt': a.oid > b.oid, 'ge': a.oid > b.oid}[p])

    def lin_term(self, l):
        if isinstance(l, int):
            return z3.IntVal(l) if self.mode == 'int' else z3.BitVecVal(l, 64)
        r = None
        for s, t in l.ts.values():
            x = t if s == 1 else t * s
            r = x if r is None else r + x
        if l.c: r = r + l.c
        return r

    BASE = 1 << 34

    def ptrint(self, p):
        if isinstance(p.off, int): return (p.oid * self.BASE + p.off) & ((1 << 64) - 1)
        return self.norm(self.lin_term(lin_add(p.off, p.oid * self.BASE)), 64)

    def intptr(self, st, v):
        if isinstance(v, Ptr): return v
        if v is UNDEF: return Ptr(0, 0)
        if not is_sym(v):
            oid, off = divmod(v, self.BASE)
            if oid and oid not in st.mem and (oid + 1) in st.mem and off > self.BASE // 2: oid, off = oid + 1, off - self.BASE
            return Ptr(oid, off)
        raise Unsupported('inttoptr of symbolic value')

    def to_lin(self, v, n):
        """value of width n (signed) as Lin/int"""
        if not is_sym(v): return sgn(v, n)
        if self.mode == 'int': t = self.sv(v, n); return Lin(0, {t.get_id(): (1, t)})
        t = v if n == 64 else z3.SignExt(64 - n, v)
        t = z3.simplify(t)
        return Lin(0, {t.get_id(): (1, t)})

    # ------------------------------------------------------------------ floats
    def fsort(self, k): return {'float': z3.Float32(), 'double': z3.Float64(), 'half': z3.Float16()}[k]

    def fv(self, v, k):
        n = {'float': 32, 'double': 64, 'half': 16}[k]
        if not is_sym(v): v = z3.BitVecVal(v, n)
        return v

    def cfl(self, bits, k):
        if k == 'float': return struct.unpack('<f', struct.pack('<I', bits))[0]
        return struct.unpack('<d', struct.pack('<Q', bits))[0]

    def cbits(self, d, k):
        if k == 'float': return float_bits(d)
        return double_bits(d)

    def uf(self, name, args, sort):
        f = z3.Function(name, *[a.sort() for a in args], sort)
        return f(*args)

    def fbin(self, st, op, a, b, k):
        if a is UNDEF or b is UNDEF: return self.fresh(z3.BitVecSort({'float': 32, 'double': 64, 'half': 16}[k]), 'fundef')
        if not is_sym(a) and not is_sym(b) and k in ('float', 'double'):
            x, y = self.cfl(a, k), self.cfl(b, k)
            try:
                if op == 'fadd': r = x + y
                elif op == 'fsub': r = x - y
                elif op == 'fmul': r = x * y
                elif op == 'fdiv':
                    if y == 0: r = float('nan') if x == 0 or x != x else math.copysign(float('inf'), x) * math.copysign(1, y)
                    else: r = x / y
                elif op == 'frem': r = math.fmod(x, y)
                return self.cbits(r, k)
            except (OverflowError, ValueError): pass
        A, B = self.fv(a, k), self.fv(b, k)
        if self.fp == 'ieee':
            if op in ('fmul', 'fdiv') and k in ('float', 'double'):
                r = self.pow2_scale(st, op, A, a, B, b, k)
                if r is not None: return r
            s = self.fsort(k); x, y = z3.fpBVToFP(A, s), z3.fpBVToFP(B, s); rm = z3.RNE()
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, x, y)
            return z3.simplify(z3.fpToIEEEBV(r))
        if op in COMM:
            # a choice among operands becomes a choice among results, so that equal operands meet in one order
            LA, LB = self.leaves(A), self.leaves(B)
            if 1 < LA * LB <= 8: return self.spread(op, A, B, k)
            if A.get_id() > B.get_id(): A, B = B, A
        r = self.uf('%s_%s' % (op, k), [A, B], A.sort())
        return r

    def leaves(self, t):
        return self.leaves(t.arg(1)) + self.leaves(t.arg(2)) if z3.is_app_of(t, z3.Z3_OP_ITE) else 1

    def spread(self, op, A, B, k):
        if z3.is_app_of(A, z3.Z3_OP_ITE): return z3.If(A.arg(0), self.spread(op, A.arg(1), B, k), self.spread(op, A.arg(2), B, k))
        if z3.is_app_of(B, z3.Z3_OP_ITE): return z3.If(B.arg(0), self.spread(op, A, B.arg(1), k), self.spread(op, A, B.arg(2), k))
        if A.get_id() > B.get_id(): A, B = B, A
        return self.uf('%s_%s' % (op, k), [A, B], A.sort())

    FL = {'half': (5, 10, 15), 'float': (8, 23, 127), 'double': (11, 52, 1023)}

    def fp_from_int(self, V, signed, k):
        """exact int -> float when the integer fits the significand (bit-vector encoding)"""
        eb, fb, bias = self.FL[k]
        w = V.size()
        if w - (1 if signed else 0) > fb + 1: return None
        neg = z3.Extract(w - 1, w - 1, V) == 1 if signed else z3.BoolVal(False)
        m = z3.If(neg, -V, V) if signed else V
        M = z3.ZeroExt(fb + 1 - w, m) if w < fb + 1 else z3.Extract(fb, 0, m) if w > fb + 1 else m
        r = z3.BitVecVal(0, eb + fb)
        for i in range(min(w, fb + 1)):      # highest set bit i
            sh = M << (fb - i)
            r = z3.If(z3.Extract(i, i, M) == 1, z3.Concat(z3.BitVecVal(bias + i, eb), z3.Extract(fb - 1, 0, sh)), r)
        return z3.simplify(z3.Concat(z3.If(neg, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), r))

    def fp_to_int(self, st, A, k, w, signed, op):
        """float -> int toward zero, with the range obligation (bit-vector encoding)"""
        eb, fb, bias = self.FL[k]
        n = eb + fb + 1
        W = max(w, fb + 1) + 1
        neg = z3.Extract(n - 1, n - 1, A) == 1
        E = z3.Extract(n - 2, fb, A); F = z3.Extract(fb - 1, 0, A)
        M = z3.Concat(z3.BitVecVal(1, W - fb), F)
        EW = z3.ZeroExt(W - eb, E) if W > eb else z3.Extract(W - 1, 0, E)
        x = EW - z3.BitVecVal(bias, W)
        small = z3.ULT(E, bias)
        mag = z3.If(small, z3.BitVecVal(0, W), z3.If(z3.ULE(x, fb), z3.LShR(M, z3.BitVecVal(fb, W) - x), M << (x - z3.BitVecVal(fb, W))))
        if signed:
            lim = z3.BitVecVal(1 << (w - 1), W)
            ok = z3.Or(z3.ULT(E, bias + w - 1), z3.And(neg, E == bias + w - 1, z3.ULE(mag, lim)))
        else: ok = z3.If(neg, small, z3.ULT(E, bias + w))
        self.oblige(st, bsimp(ok), 'float-to-int-range', op)
        r = z3.Extract(w - 1, 0, z3.If(neg, -mag, mag))
        return self.norm(r, w)

    def pow2_scale(self, st, op, A, a, B, b, k):
        """multiplication / division by a constant power of two on normal numbers is an exponent shift"""
        if op == 'fmul' and not is_sym(a): A, a, B, b = B, b, A, a
        if is_sym(b): return None
        eb, fb, bias = (8, 23, 127) if k == 'float' else (11, 52, 1023)
        n = eb + fb + 1
        e = (b >> fb) & ((1 << eb) - 1)
        if b & ((1 << fb) - 1) or e == 0 or e == (1 << eb) - 1: return None
        d = e - bias if op == 'fmul' else bias - e
        E = z3.simplify(z3.Extract(n - 2, fb, A))
        if z3.is_bv_value(E): ok = bsimp(z3.And(z3.UGE(E, max(1, 1 - d)), z3.ULE(E, (1 << eb) - 2 - max(0, d))))
        else: ok = z3.And(z3.UGE(E, max(1, 1 - d)), z3.ULE(E, (1 << eb) - 2 - max(0, d)))
        sign = z3.BitVecVal((b >> (n - 1)) << (n - 1), n)
        if self.decide(st, ok):
            return z3.simplify((A + z3.BitVecVal((d << fb) & ((1 << n) - 1), n)) ^ sign)
        if self.decide(st, z3.Extract(n - 2, 0, A) == 0): return z3.simplify(A ^ sign)
        return None

    def fcmp(self, st, pred, a, b, k):
        if pred == 'true': return 1
        if pred == 'false': return 0
        if not is_sym(a) and not is_sym(b) and k in ('float', 'double'):
            x, y = self.cfl(a, k), self.cfl(b, k)
            un = x != x or y != y
            p = pred[1:]
            if pred == 'ord': return int(not un)
            if pred == 'uno': return int(un)
            r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[p]
            if pred[0] == 'o': return int(not un and r)
            return int(un or r)
        A, B = self.fv(a, k), self.fv(b, k)
        if self.fp == 'ieee':
            eb, fb, bias = self.FL[k]
            n = eb + fb + 1
            inf = z3.BitVecVal(((1 << eb) - 1) << fb, n - 1)
            ma, mb = z3.Extract(n - 2, 0, A), z3.Extract(n - 2, 0, B)
            un = z3.Or(z3.UGT(ma, inf), z3.UGT(mb, inf))
            if pred == 'ord': return bsimp(z3.Not(un))
            if pred == 'uno': return bsimp(un)
            zz = z3.And(ma == 0, mb == 0)
            top = z3.BitVecVal(1 << (n - 1), n)
            def key(x): return z3.If(z3.Extract(n - 1, n - 1, x) == 1, ~x, x | top)
            def lt(x, y): return z3.And(z3.Not(zz), z3.ULT(key(x), key(y)))
            def eq(x, y): return z3.Or(x == y, zz)
            p = pred[1:]
            r = {'eq': lambda: eq(A, B), 'ne': lambda: z3.Not(eq(A, B)), 'lt': lambda: lt(A, B), 'gt': lambda: lt(B, A),
                 'le': lambda: z3.Or(eq(A, B), lt(A, B)), 'ge': lambda: z3.Or(eq(A, B), lt(B, A))}[p]()
            return bsimp(z3.And(z3.Not(un), r) if pred[0] == 'o' else z3.Or(un, r))
        # uninterpreted: normalise to lt / le / eq with negation so swapped spellings coincide
        p = pred
        def F(nm, x, y): return self.uf('f%s_%s' % (nm, k), [x, y], z3.BoolSort())
        def E(x, y):
            if x.get_id() > y.get_id(): x, y = y, x
            return F('oeq', x, y)
        if p == 'ord':
            return z3.And(E(A, A), E(B, B))
        if p == 'uno': return z3.Not(z3.And(E(A, A), E(B, B)))
        if p == 'olt': return F('olt', A, B)
        if p == 'ogt': return F('olt', B, A)
        if p == 'ole': return F('ole', A, B)
        if p == 'oge': return F('ole', B, A)
        if p == 'uge': return z3.Not(F('olt', A, B))
        if p == 'ule': return z3.Not(F('olt', B, A))
        if p == 'ugt': return z3.Not(F('ole', A, B))
        if p == 'ult': return z3.Not(F('ole', B, A))
        if p == 'oeq': return E(A, B)
        if p == 'une': return z3.Not(E(A, B))
        if p == 'one': return z3.And(z3.Not(E(A, B)), E(A, A), E(B, B))
        if p == 'ueq': return z3.Not(z3.And(z3.Not(E(A, B)), E(A, A), E(B, B)))
        raise Unsupported('fcmp ' + p)

    def cast(self, st, op, v, t, t2):
        if t.k == 'vec':
            return tuple(self.cast(st, op, x, t.e, t2.e) for x in v) if isinstance(v, tuple) else v
        if op == 'bitcast':
            if t.k in ('int',) and t2.k in ('float', 'double', 'half') and self.mode == 'int' and is_sym(v) and not z3.is_bv(v):
                return z3.Int2BV(v, t.n)
            if t2.k == 'int' and t.k in ('float', 'double', 'half') and self.mode == 'int' and is_sym(v):
                return z3.BV2Int(v, True)
            return v
        if v is UNDEF:
            if t2.k == 'ptr': return Ptr(0, 0)
            if t2.k == 'int': return self.havoc(st, t2.n, 'undef') if t2.n > 1 else self.fresh(z3.BoolSort(), 'undef')
            return self.fresh(z3.BitVecSort(t2.n), 'undef')
        if op == 'ptrtoint':
            return self.ptrint(v) if t2.n == 64 else self.norm(z3.Extract(t2.n - 1, 0, self.sv(self.ptrint(v), 64)), t2.n)
        if op == 'inttoptr': return self.intptr(st, v)
        if isinstance(v, Frag):
            if op == 'trunc' and v.parts[0][1] * 8 == t2.n: return v.parts[0][2]
            v = self.unfrag(st, v)
        if op in ('trunc', 'zext', 'sext') and isinstance(v, Ptr): v = self.ptrint(v)
        if op == 'trunc':
            if not is_sym(v): return v & ((1 << t2.n) - 1)
            if t2.n == 1:
                if self.mode == 'int': return bsimp(self.sv(v, t.n) % 2 == 1)
                return bsimp(z3.Extract(0, 0, v) == 1)
            if self.mode == 'int':
                z = st.ghost.get(('zsrc', v.get_id())); p = st.ghost.get(('pack', v.get_id()))
                if z and z[2] == t2.n: return z[1]
                if p and p[3] == t2.n: return p[2]
                return self.srange(st, v, t2.n)
            return self.norm(z3.Extract(t2.n - 1, 0, v), t2.n)
        if op == 'zext':
            if not is_sym(v): return v
            if t.n == 1: return self.norm(self.sv(v, t2.n), t2.n)
            if self.mode == 'int':
                r = self.norm(self.uval(st, v, t.n), t2.n)
                if z3.is_expr(r): st.ghost['zsrc', r.get_id()] = (r, v, t.n)
                return r
            return self.norm(z3.ZeroExt(t2.n - t.n, v), t2.n)
        if op == 'sext':
            if not is_sym(v): return sgn(v, t.n) & ((1 << t2.n) - 1)
            if t.n == 1:
                return self.norm(z3.If(v, self.sv((1 << t2.n) - 1, t2.n), self.sv(0, t2.n)), t2.n)
            if self.mode == 'int': return v
            return self.norm(z3.SignExt(t2.n - t.n, v), t2.n)
        if op in ('sitofp', 'uitofp'):
            k = t2.k; op0 = op
            if not is_sym(v):
                x = sgn(v, t.n) if op == 'sitofp' else v
                return self.cbits(float_from_int(x, k), k)
            if self.fp == 'ieee' and self.mode == 'bv':
                V = self.sv(v, t.n)
                f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
                if z3.is_bool(v): V = self.sv(v, 32)
                r = self.fp_from_int(V, op == 'sitofp', k)
                if r is not None: return r
                return z3.simplify(z3.fpToIEEEBV(f(z3.RNE(), V, self.fsort(k))))
            if z3.is_bool(v): V = self.sv(v, 8)
            else: V = self.sv(v, t.n)
            if self.mode == 'bv' and t.n < 64:
                V = z3.simplify(z3.SignExt(64 - V.size(), V) if op == 'sitofp' else z3.ZeroExt(64 - V.size(), V)); op = 'sitofp'
            r = self.uf('%s_%s' % (op, k), [V], z3.BitVecSort(t2.n))
            if k == 'double' and t.n <= 32 and not z3.is_bool(v): st.ghost['exact', r.get_id()] = (r, v, t.n, op0)   # exact: nothing is lost
            return r
        if op in ('fptosi', 'fptoui'):
            k = t.k
            if not is_sym(v):
                d = self.cfl(v, k)
                if d != d or d in (float('inf'), float('-inf')):
                    self.oblige(st, 0, 'float-to-int-range', op); return 0
                x = int(d)
                lo, hi = (-(1 << (t2.n - 1)), (1 << (t2.n - 1)) - 1) if op == 'fptosi' else (0, (1 << t2.n) - 1)
                self.oblige(st, int(lo <= x <= hi), 'float-to-int-range', op)
                return x & ((1 << t2.n) - 1)
            if self.fp == 'ieee' and self.mode == 'bv':
                return self.fp_to_int(st, self.fv(v, k), k, t2.n, op == 'fptosi', op)
            e = st.ghost.get(('exact', v.get_id())) if z3.is_expr(v) else None
            if e is not None and op == 'fptosi' and e[3] == 'sitofp' and e[2] == t2.n: return e[1]
            r = self.uf('%s_%s_i%d' % (op, k, t2.n), [self.fv(v, k)], self.isort(t2.n))
            if self.mode == 'int': st.pc.append(z3.And(r >= -(1 << (t2.n - 1)), r < (1 << (t2.n - 1))))
            return r
        if op in ('fpext', 'fptrunc'):
            if not is_sym(v) and t.k != 'half' and t2.k != 'half':
                return self.cbits(self.cfl(v, t.k), t2.k)
            if self.fp == 'ieee':
                x = z3.fpBVToFP(self.fv(v, t.k), self.fsort(t.k))
                return z3.simplify(z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), x, self.fsort(t2.k))))
            return self.uf('%s_%s_%s' % (op, t.k, t2.k), [self.fv(v, t.k)], z3.BitVecSort(t2.n))
        raise Unsupported('cast ' + op)


def float_from_int(x, k):
    return float(x)
