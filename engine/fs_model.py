"""Model of std::ifstream / std::ofstream / std::fstream over a ghost file system: a file is the byte sequence
written so far; there are no I/O errors and files are not changed by anyone else.  Ghost state:
  ghost['fs']      path -> tuple of bytes (concrete or symbolic 8-bit values)
  ghost['streams'] (object, offset) -> (mode, path, position, eof, fail, gcount)"""
import re
from engine import *
from vals import *
import z3

VB = {'i': 256, 'o': 248, '': 264}     # offset of the virtual base std::ios in each stream class


def conc(m, st, v, what):
    if is_sym(v):
        from builtins_model import b_concretize
        v = b_concretize(m, st, [v], None, None)
    return v


def sstr(m, st, p):
    b = m.load(st, p, PTR); n = m.load(st, Ptr(p.oid, lin_add(p.off, 8)), I64)
    n = conc(m, st, n, 'path length'); out = []
    for i in range(n):
        c = m.load(st, Ptr(b.oid, lin_add(b.off, i)), I8)
        if not isinstance(c, int): raise Unsupported('symbolic path')
        out.append(chr(c))
    return ''.join(out)


def fs(st): return st.ghost.setdefault('fs', {}) if False else st.ghost.get('fs') or {}


def setfs(st, path, data):
    d = dict(fs(st)); d[path] = data; st.ghost['fs'] = d


def key(p): return (p.oid, p.off if isinstance(p.off, int) else None)


def getst(st, p):
    return (st.ghost.get('streams') or {}).get(key(p))


def setst(st, p, v):
    d = dict(st.ghost.get('streams') or {})
    if v is None: d.pop(key(p), None)
    else: d[key(p)] = v
    st.ghost['streams'] = d


def cls(nm_dem):
    r = re.match(r'^std::basic_(i|o|)fstream<', nm_dem)
    return r.group(1)


def do_open(m, st, p, kind, path, mode):
    # st: (kind, path or None, pos, eof, fail, gcount)
    app = mode & 1; ate = mode & 2; trunc = mode & 32; inn = mode & 8; out = mode & 16
    if kind == 'i': inn = 8
    if kind == 'o': out = 16
    ex = path in fs(st)
    if kind == 'i' or (inn and not trunc and not app):
        if not ex:
            setst(st, p, (kind, None, 0, False, True, 0)); return
    elif '/' in path and not any(q.startswith(path[:path.rindex('/') + 1]) for q in fs(st)):     # no such directory
        setst(st, p, (kind, None, 0, False, True, 0)); return
    elif out and not app or not ex: setfs(st, path, ())
    pos = len(fs(st)[path]) if app or ate else 0
    setst(st, p, (kind, path, pos, False, False, 0))


def ctor(m, st, a, ins, nm):
    d = m.dem.get(nm, nm); k = cls(d)
    p = a[0]
    key0 = ('fsvt', k)
    vt = st.ghost.get(key0)
    if vt is None:
        o = m.newobj(st, 64, 'global', 'vtable for fstream'); vt = Ptr(o.oid, 24); st.ghost[key0] = vt
        m.store(st, Ptr(o.oid, 0), VB[k], I64)
    m.store(st, p, vt, PTR)
    setst(st, p, (k, None, 0, False, False, 0))
    if len(a) >= 3:
        path = sstr(m, st, a[1]) if 'basic_string' in d.split('fstream(', 1)[-1] else __import__('builtins_model').cstr(m, st, a[1])
        do_open(m, st, p, k, path, conc(m, st, a[2], 'mode'))


def dtor(m, st, a, ins, nm):
    setst(st, a[0], None)


def s_open(m, st, a, ins, nm):
    d = m.dem.get(nm, nm); s = getst(st, a[0])
    path = sstr(m, st, a[1]) if 'basic_string' in d.split('::open(', 1)[-1] else __import__('builtins_model').cstr(m, st, a[1])
    if s[1] is not None: setst(st, a[0], s[:4] + (True, s[5])); return
    do_open(m, st, a[0], s[0], path, conc(m, st, a[2], 'mode'))


def s_close(m, st, a, ins, nm):
    s = getst(st, a[0])
    if s is None: raise Unsupported('close of unknown stream')
    if s[1] is None: setst(st, a[0], s[:4] + (True, s[5]))
    else: setst(st, a[0], (s[0], None) + s[2:])


def s_isopen(m, st, a, ins, nm):
    s = getst(st, a[0])
    if s is None: raise Unsupported('is_open of unknown stream')
    return 1 if s[1] is not None else 0


def other(m, st, p, delta):
    """tracked stream whose sub-object at offset delta is p"""
    for dl in delta:
        q = Ptr(p.oid, lin_add(p.off, -dl))
        s = getst(st, q)
        if s is not None: return q, s
    return None, None


def s_write(m, st, a, ins, nm):
    q, s = other(m, st, a[0], (0, 16))
    if s is None: return a[0]
    n = conc(m, st, a[2], 'write size')
    if s[1] is None or s[4]:
        setst(st, q, s[:4] + (True, s[5])); return a[0]
    bs = tuple(m.load(st, Ptr(a[1].oid, lin_add(a[1].off, i)), I8) for i in range(n))
    for b in bs:
        if b is UNDEF: m.oblige(st, 0, 'uninitialised', 'uninitialised byte written to a file')
    f = fs(st)[s[1]]; pos = s[2]
    setfs(st, s[1], f[:pos] + bs + f[pos + n:])
    setst(st, q, (s[0], s[1], pos + n) + s[3:])
    return a[0]


def s_read(m, st, a, ins, nm):
    q, s = other(m, st, a[0], (0,))
    if s is None: raise Unsupported('read of unknown stream')
    n = conc(m, st, a[2], 'read size')
    if s[1] is None or s[3] or s[4]:
        setst(st, q, s[:4] + (True, 0)); return a[0]
    f = fs(st)[s[1]]; bs = f[s[2]:s[2] + n]
    for i, b in enumerate(bs): m.store(st, Ptr(a[1].oid, lin_add(a[1].off, i)), b, I8)
    short = len(bs) < n
    setst(st, q, (s[0], s[1], s[2] + len(bs), s[3] or short, s[4] or short, len(bs)))
    return a[0]


def s_gcount(m, st, a, ins, nm):
    q, s = other(m, st, a[0], (0,))
    if s is None: raise Unsupported('gcount of unknown stream')
    return s[5]


def s_seek(m, st, a, ins, nm):
    q, s = other(m, st, a[0], (0, 16))
    if s is None: raise Unsupported('seek of unknown stream')
    if len(a) < 3: raise Unsupported('seek to fpos')
    off = sgn(conc(m, st, a[1], 'seek'), 64); w = conc(m, st, a[2], 'whence')
    s = s[:3] + (False,) + s[4:]
    if s[1] is None or s[4]: return a[0]
    base = {0: 0, 1: s[2], 2: len(fs(st)[s[1]])}[w]
    if base + off < 0: setst(st, q, s[:4] + (True, s[5])); return a[0]
    setst(st, q, s[:2] + (base + off,) + s[3:])
    return a[0]


def iosq(what):
    def f(m, st, a, ins, nm):
        q, s = other(m, st, a[0], (248, 256, 264, 0))
        if s is None:
            if ins.ty.k == 'void': return None
            if what == 'good' or what == 'bool': return 1
            return 0
        eof, fail = s[3], s[4]
        return int({'eof': eof, 'fail': fail, 'bad': False, 'good': not (eof or fail), 'not': fail, 'bool': not fail}[what])
    return f


def s_clear(m, st, a, ins, nm):
    q, s = other(m, st, a[0], (248, 256, 264))
    if s is not None: setst(st, q, s[:3] + (False, False, s[5]))


def v_file_read(m, st, a, ins, nm):
    from builtins_model import cstr
    f = fs(st).get(cstr(m, st, a[0]))
    if f is None: return (1 << 64) - 1
    cap = conc(m, st, a[2], 'cap')
    for i, b in enumerate(f[:cap]): m.store(st, Ptr(a[1].oid, lin_add(a[1].off, i)), b, I8)
    return len(f)


def v_file_write(m, st, a, ins, nm):
    from builtins_model import cstr
    n = conc(m, st, a[2], 'n')
    setfs(st, cstr(m, st, a[0]), tuple(m.load(st, Ptr(a[1].oid, lin_add(a[1].off, i)), I8) for i in range(n)))


TABLE = [(re.compile(x), h) for x, h in [
    (r'^vc_file_read$', v_file_read), (r'^vc_file_write$', v_file_write),
    (r'^std::basic_[io]?fstream<.*>::basic_[io]?fstream\(', ctor),
    (r'^std::basic_[io]?fstream<.*>::~basic_', dtor),
    (r'^std::basic_[io]?fstream<.*>::open\(', s_open),
    (r'^std::basic_[io]?fstream<.*>::close\(', s_close),
    (r'^std::basic_[io]?fstream<.*>::is_open\(', s_isopen),
    (r'^std::(ostream|basic_ostream<.*>)::write\(', s_write),
    (r'^std::(istream|basic_istream<.*>)::read\(', s_read),
    (r'^std::(istream|basic_istream<.*>)::gcount\(', s_gcount),
    (r'^std::(istream|basic_istream<.*>)::seekg\(', s_seek), (r'^std::(ostream|basic_ostream<.*>)::seekp\(', s_seek),
    (r'^std::(basic_ios<.*>|ios)::eof\(', iosq('eof')), (r'^std::(basic_ios<.*>|ios)::fail\(', iosq('fail')), (r'^std::(basic_ios<.*>|ios)::bad\(', iosq('bad')),
    (r'^std::(basic_ios<.*>|ios)::good\(', iosq('good')), (r'^std::(basic_ios<.*>|ios)::operator!\(', iosq('not')),
    (r'^std::(basic_ios<.*>|ios)::operator bool\(', iosq('bool')), (r'^std::(basic_ios<.*>|ios)::clear\(', s_clear),
]]


def find(m, d):
    for r, h in TABLE:
        if r.search(d): return h
    return None
