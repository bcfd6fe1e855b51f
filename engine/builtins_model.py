"""Models (assumed contracts) of external functions: allocator, libc/libstdc++ runtime, logging, and the vc_* harness API."""
import re, os
from engine import *
from engine import Dead, Fork, THROWERS
import z3


def cstr(m, st, p):
    o = st.mem[p.oid]
    if not o.init: o = m.init_global(st, o)
    out = []
    i = p.off
    while True:
        f = m.find_cover(o, i)
        b = m.byte_of(f[1], i - f[0]) if f else 0
        if not isinstance(b, int): raise Unsupported('symbolic C string')
        if b == 0: return ''.join(out)
        out.append(chr(b)); i += 1


def rng_term(m, st, name, n, lo, hi, record=True):
    if m.mode == 'int': v = z3.Int('%s!%d' % (name, st.nondet))
    else: v = z3.BitVec('%s!%d' % (name, st.nondet), n)
    st.nondet += 1
    L = z3.IntVal(lo) if m.mode == 'int' else z3.BitVecVal(lo, n)
    if not (lo == -(1 << (n - 1)) and hi == (1 << (n - 1)) - 1) or m.mode == 'int':
        st.pc.append(z3.And(v >= lo, v <= hi))
    if record: st.inputs.append(('scalar', name, v, None))
    return v


def c_signed(m, st, v, n):
    if is_sym(v): return v
    return sgn(v, n)


def b_vc_int(n):
    def f(m, st, a, ins, nm):
        name = cstr(m, st, a[0]); lo, hi = a[1], a[2]
        if not is_sym(lo) and not is_sym(hi):
            lo, hi = sgn(lo, n), sgn(hi, n)
            if lo > hi: raise Dead('empty range')
            if lo == hi:
                st.inputs.append(('scalar', name, lo, None)); return lo & ((1 << n) - 1)
            return rng_term(m, st, name, n, lo, hi)
        v = rng_term(m, st, name, n, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        m.assume_feasible(st, z3.And(v >= m.sv(lo, n), v <= m.sv(hi, n)))
        return v
    return f


def b_vc_any(m, st, a, ins, nm):
    n = 64
    lo, hi = a[1], a[2]
    v = m.fresh(m.isort(n), 'any')
    c = z3.And(v >= m.sv(lo, n), v < m.sv(hi, n))
    m.assume_feasible(st, c)
    return v


def b_vc_full(n):
    def f(m, st, a, ins, nm):
        name = cstr(m, st, a[0])
        if m.mode == 'int' and n < 64:
            return m.from_unsigned(st, rng_term(m, st, name, n + 1, 0, (1 << n) - 1), n)
        return rng_term(m, st, name, n, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return f


def b_vc_fbits(n):
    def f(m, st, a, ins, nm):
        name = cstr(m, st, a[0])
        v = z3.BitVec('%s!%d' % (name, st.nondet), n); st.nondet += 1
        st.inputs.append(('scalar', name, v, None))
        return v
    return f


def b_vc_bool(m, st, a, ins, nm):
    name = cstr(m, st, a[0])
    v = z3.Bool('%s!%d' % (name, st.nondet)); st.nondet += 1
    st.inputs.append(('scalar', name, v, None))
    return v


def b_vc_pick(m, st, a, ins, nm):
    name = cstr(m, st, a[0])
    lo, hi = sgn(a[1], 32), sgn(a[2], 32)
    key = ('pick', st.nondet)
    v = st.ghost.get(key)
    if v is None:
        v = z3.Int('pick_%s!%d' % (name, st.nondet)) if m.mode == 'int' else z3.BitVec('pick_%s!%d' % (name, st.nondet), 32)
        st.ghost[key] = v
        st.pc.append(z3.And(v >= lo, v <= hi))
    for x in range(lo, hi + 1):
        if m.decide(st, v == x):
            st.nondet += 1
            st.inputs.append(('scalar', name, x, None))
            return x & 0xffffffff
    raise Dead('pick')


def mk_array(m, st, name, cnt, es, kind, record):
    o = m.newobj(st, None, 'heap', name, kind='array')
    et = 'int' if kind == 0 else 'float'
    o.et = et
    sort = z3.IntSort() if (m.mode == 'int' and kind == 0) else z3.BitVecSort(8 * es)
    o.es = es
    o.arr = z3.Array('%s!%d' % (name, st.nondet), m.ielem, sort); st.nondet += 1
    if is_sym(cnt):
        o.count = cnt; o.size = cnt * es
    else:
        o.count = sgn(cnt, 64); o.size = o.count * es
    if record: st.inputs.append(('array', name, o.arr, (o.count, es, o.arr, et)))
    return Ptr(o.oid, 0)


def b_vc_array(m, st, a, ins, nm):
    name = cstr(m, st, a[0])
    if is_sym(a[1]): m.oblige(st, m.sv(a[1], 64) >= 0, 'harness', 'array length')
    return mk_array(m, st, name, a[1], a[2], a[3], 'out' not in nm)


def b_vc_cells(m, st, a, ins, nm):
    """small concrete-size object of independent symbolic elements"""
    name = cstr(m, st, a[0]); n, es, kind = a[1], a[2], a[3]
    o = m.newobj(st, n * es, 'heap', name)
    for i in range(n):
        if m.mode == 'int' and kind == 0:
            v = z3.Int('%s!%d' % (name, st.nondet)); st.pc.append(z3.And(v >= -(1 << (8 * es - 1)), v < (1 << (8 * es - 1))))
        else: v = z3.BitVec('%s!%d' % (name, st.nondet), 8 * es)
        st.nondet += 1
        st.inputs.append(('scalar', name, v, None))
        o.cells[i * es] = (es, v)
    return Ptr(o.oid, 0)


def b_assume(m, st, a, ins, nm):
    m.assume_feasible(st, a[0] if not is_sym(a[0]) else a[0])


def b_assert(m, st, a, ins, nm):
    m.oblige(st, a[0], 'postcondition', cstr(m, st, a[1]))


def b_cover(m, st, a, ins, nm):
    n = cstr(m, st, a[0])
    if n not in st.covers:
        if m.check(st) == z3.unsat: raise Dead('infeasible')
        st.covers.add(n)


def b_new(m, st, a, ins, nm):
    n = a[0]
    if is_sym(n):
        o = m.newobj(st, n, 'heap', 'new')
    else:
        if nm in ('malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t') and (n & (1 << 64) - 1) >= 1 << 63: return Ptr(0, 0)   # no object can be that large
        o = m.newobj(st, n, 'heap', 'new')
    return Ptr(o.oid, 0)


def b_calloc(m, st, a, ins, nm):
    n = m.binop(st, 'mul', a[0], a[1], 64, ())
    p = b_new(m, st, [n], ins, nm)
    m.memset(st, p, 0, n)
    return p


def b_delete(m, st, a, ins, nm):
    p = a[0]
    if not isinstance(p, Ptr): p = m.intptr(st, p)
    if p.oid == 0: return
    o = st.mem.get(p.oid)
    if o is None or o.tag != 'heap' or p.off != 0:
        m.oblige(st, 0, 'bad-free', 'free of non-heap pointer'); return
    if not o.live: m.oblige(st, 0, 'double-free', 'double free')
    o = m.wobj(st, p.oid); o.live = False


def b_realloc(m, st, a, ins, nm):
    p = a[0]
    q = b_new(m, st, [a[1]], ins, nm)
    if isinstance(p, Ptr) and p.oid:
        o = st.mem[p.oid]
        if isinstance(o.size, int) and not is_sym(a[1]):
            m.memcpy(st, q, p, min(o.size, a[1]))
        else: raise Unsupported('symbolic realloc')
        b_delete(m, st, [p], ins, nm)
    return q


def b_memcpy(m, st, a, ins, nm):
    m.memcpy(st, a[0], a[1], a[2], 'memmove' if 'memmove' in nm else 'memcpy'); return a[0]


def b_memset(m, st, a, ins, nm):
    v = a[1]
    if is_sym(v): v = z3.Extract(7, 0, v) if z3.is_bv(v) else v
    else: v &= 255
    m.memset(st, a[0], v, a[2]); return a[0]


def ldb(m, st, p, i): return m.load(st, Ptr(p.oid, lin_add(p.off, i)), I8)


def b_strlen(m, st, a, ins, nm):
    i = 0
    while True:
        b = ldb(m, st, a[0], i)
        if m.decide(st, m.cmp(st, 'eq', b, 0, 8)): return i
        i += 1
        if i > 100000: raise Unsupported('strlen')


def b_memcmp(m, st, a, ins, nm):
    n = a[2]
    if is_sym(n): n = b_concretize(m, st, [n], ins, nm)
    for i in range(n):
        x, y = ldb(m, st, a[0], i), ldb(m, st, a[1], i)
        if not m.decide(st, m.cmp(st, 'eq', x, y, 8)):
            return 1 if m.decide(st, m.cmp(st, 'ugt', x, y, 8)) else 0xffffffff
    return 0


def b_strcmp(m, st, a, ins, nm):
    n = a[2] if 'ncmp' in nm else 1 << 30
    i = 0
    while i < n:
        x, y = ldb(m, st, a[0], i), ldb(m, st, a[1], i)
        if not m.decide(st, m.cmp(st, 'eq', x, y, 8)):
            return 1 if m.decide(st, m.cmp(st, 'ugt', x, y, 8)) else 0xffffffff
        if m.decide(st, m.cmp(st, 'eq', x, 0, 8)): return 0
        i += 1
    return 0


def b_strcpy(m, st, a, ins, nm):
    n = b_strlen(m, st, [a[1]], ins, nm)
    m.memcpy(st, a[0], a[1], n + 1); return a[0]


def b_memchr(m, st, a, ins, nm):
    for i in range(a[2]):
        if m.decide(st, m.cmp(st, 'eq', ldb(m, st, a[0], i), a[1] & 255 if not is_sym(a[1]) else a[1], 8)):
            return Ptr(a[0].oid, lin_add(a[0].off, i))
    return Ptr(0, 0)


def b_bcmp(m, st, a, ins, nm): return b_memcmp(m, st, a, ins, nm)


def b_zero(m, st, a, ins, nm): return 0


def b_void(m, st, a, ins, nm): return None


def b_alloc_exc(m, st, a, ins, nm):
    o = m.newobj(st, a[0], 'heap', 'exception')
    return Ptr(o.oid, 0)


def b_throw(m, st, a, ins, nm):
    from machine import THROWN
    ti = m.gname[a[1].oid]
    m.throw(st, a[0], ti)
    return THROWN


def b_rethrow(m, st, a, ins, nm):
    from machine import THROWN
    exc, ti = st.caught[-1]
    m.throw(st, exc, ti)
    return THROWN


def b_begin_catch(m, st, a, ins, nm):
    exc, ti = st.ghost['inflight']
    st.caught.append((exc, ti))
    return a[0]


def b_end_catch(m, st, a, ins, nm):
    if st.caught: st.caught.pop()


def std_throw(m, st, a, ins, nm):
    from machine import THROWN
    for k, ti in THROWERS.items():
        if nm.endswith(k) or (k + 'PKc') in nm or (k + 'v') in nm or (k + 'i') in nm:
            m.global_oid(ti)
            o = m.newobj(st, 16, 'heap', 'stdexception')
            best = ti
            break
    for k, ti in sorted(THROWERS.items(), key=lambda x: -len(x[0])):
        if k in nm: best = ti; break
    m.throw(st, Ptr(o.oid, 0), best)
    return THROWN


def mkstring(m, st, p, s=''):
    data = s.encode()
    buf = Ptr(p.oid, lin_add(p.off, 16))
    if len(data) > 15:
        o = m.newobj(st, len(data) + 1, 'heap', 'string')
        buf = Ptr(o.oid, 0)
        m.store(st, Ptr(p.oid, lin_add(p.off, 16)), len(data), I64)
    m.store(st, p, buf, PTR)
    m.store(st, Ptr(p.oid, lin_add(p.off, 8)), len(data), I64)
    for i, b in enumerate(data + b'\0'): m.store(st, Ptr(buf.oid, lin_add(buf.off, i)), b, I8)


def throw_eject(m, st):
    from machine import THROWN
    if os.environ.get('VC_THROW'): print('EJECT', [m.dem.get(f.fn.name, f.fn.name)[:70] for f in st.frames], flush=True)
    o = m.newobj(st, 48, 'heap', 'EjectionException')
    vt = '_ZTVN2ts17EjectionExceptionE'
    if vt in m.mod.gdef: m.store(st, Ptr(o.oid, 0), Ptr(m.global_oid(vt), 16), PTR)
    mkstring(m, st, Ptr(o.oid, 8), '#')
    m.global_oid('_ZTIN2ts17EjectionExceptionE')
    m.throw(st, Ptr(o.oid, 0), '_ZTIN2ts17EjectionExceptionE')
    return THROWN


def log_ctor(m, st, a, ins, nm):
    m.store(st, a[0], a[1], I32)


def log_method(m, st, a, ins, nm):
    lv = m.load(st, a[0], I32)
    if m.decide(st, m.cmp(st, 'eq', lv, 0, 32)): return a[0]
    if not m.decide(st, m.cmp(st, 'sge', lv, 3, 32)): return a[0]
    fn = m.fnoid.get(a[1].oid, '')
    if 'eject' in fn: return throw_eject(m, st)
    if 'fatal' in fn:
        m.oblige(st, 0, 'fatal-exit', 'TS_LOG_FATAL terminates the process'); raise Dead('fatal')
    raise Unsupported('log method ' + fn)


def ret_this(m, st, a, ins, nm): return a[0] if a else None


def ret_str(m, st, a, ins, nm):
    mkstring(m, st, a[0], '#')


def b_abort(m, st, a, ins, nm):
    m.oblige(st, 0, 'abort', nm); raise Dead('abort')


def b_havoc_int(m, st, a, ins, nm):
    if ins.ty.k == 'int': return m.havoc(st, ins.ty.n, 'ext')
    if ins.ty.k == 'ptr': return Ptr(0, 0)
    if ins.ty.k == 'void': return None
    if ins.ty.k in ('float', 'double'): return m.fresh(z3.BitVecSort(ins.ty.n), 'ext')
    raise Unsupported('havoc ' + nm)


def b_guard_acquire(m, st, a, ins, nm):
    v = m.load(st, a[0], I8)
    return 0 if v else 1


def b_guard_release(m, st, a, ins, nm): m.store(st, a[0], 1, I8)


def b_fmath(name):
    base = name[:-1] if name.endswith('f') and name not in ('erf',) else name
    def f(m, st, a, ins, nm): return m.fmath(st, base, a, ins.ty)
    return f


def b_dyncast(m, st, a, ins, nm):
    p = a[0]
    if p.oid == 0: return Ptr(0, 0)
    vt = m.load(st, p, PTR)
    vo = st.mem[vt.oid]
    ti = m.load(st, Ptr(vt.oid, lin_add(vt.off, -8)), PTR)
    name = m.gname[ti.oid]; target = m.gname[a[2].oid]
    if target in m.bases(name): return p
    return Ptr(0, 0)


def b_symbolic(m, st, a, ins, nm): return 1


def b_print(m, st, a, ins, nm):
    print('VCPRINT', cstr(m, st, a[0]), [x for x in a[1:]])


def b_concretize(m, st, a, ins, nm):
    v = a[0]
    if not is_sym(v): return v
    while True:
        r = m.check(st)
        if r == z3.unsat: raise Dead('infeasible')
        if r != z3.sat: raise Unsupported('concretize unknown')
        x = m.last_model.eval(v, model_completion=True)
        x = x.as_long() if z3.is_int_value(x) else x.as_signed_long()
        if m.decide(st, v == x): return x & ((1 << 64) - 1)


def b_isinput(m, st, a, ins, nm): return 1


def b_hash_bytes(m, st, a, ins, nm):
    p, n = a[0], a[1]
    if is_sym(n): raise Unsupported('hash of symbolic length')
    h = 1469598103934665603
    for i in range(n):
        b = ldb(m, st, p, i)
        if not isinstance(b, int): raise Unsupported('hash of symbolic bytes')
        h = ((h ^ b) * 1099511628211) & ((1 << 64) - 1)
    return h


EXACT = {
    'vc_i32': b_vc_int(32), 'vc_i64': b_vc_int(64), 'vc_any': b_vc_any, 'vc_u8': b_vc_full(8), 'vc_u16': b_vc_full(16), 'vc_u32': b_vc_full(32),
    'vc_u64': b_vc_full(64), 'vc_f32bits': b_vc_fbits(32), 'vc_f64bits': b_vc_fbits(64), 'vc_bool': b_vc_bool, 'vc_pick': b_vc_pick,
    'vc_array': b_vc_array, 'vc_out_array': b_vc_array, 'vc_cells': b_vc_cells, 'vc_assume': b_assume, 'vc_assert': b_assert, 'vc_cover': b_cover,
    'vc_symbolic': b_symbolic, 'vc_random': lambda m, st, a, ins, nm: 0, 'vc_print': b_print, 'vc_concretize': b_concretize,
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new, '_ZnwmRKSt9nothrow_t': b_new, '_ZnamRKSt9nothrow_t': b_new, 'calloc': b_calloc, 'realloc': b_realloc,
    '_ZdlPv': b_delete, '_ZdaPv': b_delete, '_ZdlPvm': b_delete, '_ZdaPvm': b_delete, 'free': b_delete, '_ZdlPvRKSt9nothrow_t': b_delete,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset, 'strlen': b_strlen, 'memcmp': b_memcmp, 'bcmp': b_memcmp, 'strcmp': b_strcmp, 'strncmp': b_strcmp,
    'strcpy': b_strcpy, 'memchr': b_memchr,
    '__cxa_allocate_exception': b_alloc_exc, '__cxa_free_exception': b_void, '__cxa_throw': b_throw, '__cxa_rethrow': b_rethrow,
    '__cxa_begin_catch': b_begin_catch, '__cxa_end_catch': b_end_catch, '__cxa_get_exception_ptr': ret_this, '__cxa_atexit': b_zero, '__cxa_thread_atexit': b_zero, '__cxa_demangle': lambda m, st, a, i, n: Ptr(0, 0),
    '__cxa_guard_acquire': b_guard_acquire, '__cxa_guard_release': b_guard_release, '__cxa_guard_abort': b_void, '__dynamic_cast': b_dyncast,
    'abort': b_abort, 'exit': b_abort, '_ZSt9terminatev': b_abort, '__cxa_pure_virtual': b_abort, '__clang_call_terminate': b_abort, '__assert_fail': b_abort,
    '__cxa_bad_cast': b_abort,
    'pthread_mutex_lock': b_zero, 'pthread_mutex_unlock': b_zero, '__pthread_key_create': b_zero, 'pthread_self': b_zero, 'pthread_mutex_trylock': b_zero,
    '_ZSt11_Hash_bytesPKvmm': b_hash_bytes, '__libc_single_threaded': b_zero, 'omp_get_max_threads': lambda m, st, a, i, n: 1, 'omp_get_thread_num': b_zero,
    'fegetround': b_zero, 'fesetround': b_zero, 'time': b_zero, 'clock': b_zero, 'rand': b_havoc_int, '__errno_location': b_havoc_int,
    'pthread_rwlock_rdlock': b_zero, 'pthread_rwlock_wrlock': b_zero, 'pthread_rwlock_unlock': b_zero, '_ZNSt18condition_variableD1Ev': b_void,
    '_ZNSt18condition_variableC1Ev': b_void, '_ZNSt18condition_variable10notify_oneEv': b_void, '_ZNSt18condition_variable10notify_allEv': b_void,
    '_ZNSt8ios_base4InitC1Ev': b_void, '_ZNSt9exceptionD2Ev': b_void, '_ZNSt9exceptionD1Ev': b_void, '_ZNSt6chrono3_V212system_clock3nowEv': b_zero,
    '_ZNSt6chrono3_V212steady_clock3nowEv': b_zero, 'printf': b_zero, 'puts': b_zero, 'getenv': lambda m, st, a, i, n: Ptr(0, 0),
}
for _n in 'floor ceil sqrt exp log pow trunc round fabs sin cos tan tanh erf fmod log2 log10 exp2 fmax fmin floorf ceilf sqrtf expf logf powf truncf roundf fabsf sinf cosf tanhf erff fmodf log1p log1pf rint rintf nearbyint nearbyintf cbrt atan atan2 sinh cosh asin acos lrint'.split():
    EXACT[_n] = b_fmath(_n)

def b_to_string(m, st, a, ins, nm):
    # text of a symbolic number (messages only): left unspecified; concrete numbers run the real code
    if not m.opaque_text or not is_sym(a[-1]): return NotImplemented
    mkstring(m, st, a[0], '#')


def b_what(m, st, a, ins, nm):
    o = m.newobj(st, 2, 'heap', 'what'); m.store(st, Ptr(o.oid, 0), 63, I8); m.store(st, Ptr(o.oid, 1), 0, I8)     # some text, not empty
    return Ptr(o.oid, 0)


OPAQUE = [
    (re.compile(r'^std::(__cxx11::)?to_string\((int|long|long long|unsigned int|unsigned long|unsigned long long)\)'), b_to_string),
    (re.compile(r'^std::(out_of_range|logic_error|runtime_error|invalid_argument|length_error|range_error|domain_error|exception|bad_alloc|overflow_error)::what\(\) const'), b_what),
    (re.compile(r'^std::(out_of_range|logic_error|runtime_error|invalid_argument|length_error|range_error|domain_error|overflow_error)::~?(out_of_range|logic_error|runtime_error|invalid_argument|length_error|range_error|domain_error|overflow_error)\('), b_void),
    (re.compile(r'^ts::LogStream::LogStream\('), log_ctor),
    (re.compile(r'^ts::LogStream::~LogStream\('), b_void),
    (re.compile(r'^ts::LogStream::operator<<\(ts::LogStream& \(\*\)\(ts::LogStream&\)\)'), log_method),
    (re.compile(r'^(ts::LogStream& )?ts::LogStream::operator(\(\)|<<)'), ret_this),
    (re.compile(r'^ts::LogStream::(flush|message|level)'), ret_str),
    (re.compile(r'^ts::GlobalLogLevel'), lambda m, st, a, i, n: 3),
    (re.compile(r'^std::(__cxx11::)?basic_[oi]?stringstream<.*>::str\(\) const'), ret_str),
    (re.compile(r'^std::(__cxx11::)?basic_(o|i|)(stringstream|stream)<.*>::~?basic_'), b_void),
    (re.compile(r'^std::(__cxx11::)?basic_(o|)(stringstream|stream)<'), ret_this),
    (re.compile(r'^std::basic_ostream<.*>& std::operator<<'), ret_this),
    (re.compile(r'^std::basic_ostream<.*>& std::(endl|flush|ends)'), ret_this),
    (re.compile(r'^std::ostream::'), ret_this),
    (re.compile(r'^std::ios_base|^std::basic_ios'), b_void),
    (re.compile(r'^std::locale::'), b_void),
    (re.compile(r'^ts::Split\(|^ts::now_time|^ts::to_string\(std::chrono'), ret_str),
]


def find_builtin(m, name):
    if name in EXACT: return EXACT[name]
    if '__throw_' in name and name.startswith('_ZSt'): return std_throw
    d = m.dem.get(name, name)
    import fs_model
    f = fs_model.find(m, d)
    if f is not None: return f
    for r, f in OPAQUE:
        if r.search(d):
            return f
    return None
