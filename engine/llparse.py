"""Parser for textual LLVM IR (LLVM 18, opaque pointers).  Function bodies are parsed lazily."""
import re, struct

TOK = re.compile(r'''%"[^"]*"|%[\w.$-]+|@"[^"]*"|@[\w.$-]+|c"[^"]*"|"[^"]*"|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_$][\w.$-]*|\.\.\.|[()\[\]{}<>,=*!|#:]''')


class T:
    __slots__ = ('k', 'n', 'e', 'fields', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(self, k, n=0, e=None, fields=None, packed=False, name=None):
        self.k = k; self.n = n; self.e = e; self.fields = fields; self.packed = packed; self.name = name
        self._size = None; self._align = None; self._offs = None

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k in ('arr', 'vec'): return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct': return self.name or '{%s}' % ','.join(map(repr, self.fields or []))
        return self.k


VOID = T('void'); PTR = T('ptr'); FLOAT = T('float', 32); DOUBLE = T('double', 64); HALF = T('half', 16)
LABEL = T('label'); META = T('metadata'); TOKEN = T('token'); X86FP80 = T('x86_fp80', 80)
_ints = {}


def INT(n):
    if n not in _ints: _ints[n] = T('int', n)
    return _ints[n]


I1, I8, I32, I64 = INT(1), INT(8), INT(32), INT(64)


def sizeof(t):
    if t._size is not None: return t._size
    k = t.k
    if k == 'int': s = 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16 * ((t.n + 127) // 128)
    elif k == 'ptr': s = 8
    elif k == 'float': s = 4
    elif k == 'double': s = 8
    elif k == 'half': s = 2
    elif k == 'x86_fp80': s = 16
    elif k == 'arr': s = t.n * sizeof(t.e)
    elif k == 'vec': s = t.n * sizeof(t.e)
    elif k == 'struct':
        off = 0; offs = []; mx = 1
        if t.fields is None: raise Exception('opaque struct ' + str(t.name))
        for f in t.fields:
            a = 1 if t.packed else alignof(f)
            mx = max(mx, a)
            off = (off + a - 1) // a * a
            offs.append(off); off += sizeof(f)
        s = (off + mx - 1) // mx * mx
        t._offs = offs; t._align = mx
    else: raise Exception('sizeof ' + k)
    t._size = s
    return s


def alignof(t):
    k = t.k
    if k == 'int': return min(sizeof(t), 16)
    if k in ('arr',): return alignof(t.e)
    if k == 'struct':
        sizeof(t)
        return t._align
    return sizeof(t)


def offsets(t):
    sizeof(t)
    return t._offs


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Sym:
    """address of global + offset (constant)"""
    __slots__ = ('name', 'off')

    def __init__(self, name, off=0): self.name = name; self.off = off

    def __repr__(self): return '@%s+%d' % (self.name, self.off)


class CExpr:
    __slots__ = ('op', 'args')

    def __init__(self, op, args): self.op = op; self.args = args


class Zero:
    def __repr__(self): return 'zeroinit'


ZERO = Zero()


def f64bits_to_float(bits64):
    return struct.unpack('<d', struct.pack('<Q', bits64))[0]


def double_bits(d): return struct.unpack('<Q', struct.pack('<d', d))[0]


def float_bits(d):
    try:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    except OverflowError:
        return 0x7f800000 if d > 0 else 0xff800000


SKIPWORDS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly returned immarg nest nofree
swiftself swifterror allocalign allocptr dead_on_unwind writable noalias noinline nounwind optnone willreturn
fastcc ccc coldcc nneg tail musttail notail fast nnan ninf nsz arcp contract afn reassoc inbounds exact disjoint volatile
dso_local local_unnamed_addr unnamed_addr internal private linkonce_odr weak_odr available_externally external hidden protected default
weak linkonce common appending comdat thread_local'''.split())
PARENWORDS = set('dereferenceable dereferenceable_or_null nofpclass range captures'.split())


class Lex:
    __slots__ = ('t', 'i')

    def __init__(self, s):
        self.t = TOK.findall(s); self.i = 0

    def peek(self): return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x: raise Exception('expected %s got %s at %s' % (x, y, ' '.join(self.t[max(0, self.i - 12):self.i + 6])))

    def eof(self): return self.i >= len(self.t)


def unq(n):
    n = n[1:]
    if n.startswith('"'): n = n[1:-1]
    return n


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'x', 'flags', 'text')

    def __init__(self, op, dest=None, ty=None, a=(), x=None, flags=()):
        self.op = op; self.dest = dest; self.ty = ty; self.a = a; self.x = x; self.flags = flags

    def __repr__(self): return '%s = %s %r %r %r' % (self.dest, self.op, self.ty, self.a, self.x)


class Fn:
    __slots__ = ('name', 'dem', 'ret', 'params', 'vararg', 'lines', 'blocks', 'entry', 'decl', 'pre', 'loops', 'order', 'cache')

    def __init__(self): self.blocks = None; self.lines = None; self.loops = None; self.cache = {}


class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.fns = {}; self.aliases = {}
        self.gdef = {}
        import re as _re
        m = _re.search(r'^@llvm\.global_ctors = .*$', text, _re.M)
        ct = _re.findall(r'i32 (\d+), ptr @("[^"]+"|[\w.$]+)', m.group(0)) if m else []
        self.ctors = [f.strip('"') for p, f in sorted(ct, key=lambda x: int(x[0]))]
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        gl = []
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self._header(ln, lines[i + 1:j])
                i = j + 1; continue
            if ln.startswith('declare '):
                self._header(ln, None)
            elif ln.startswith('%') and ' = type ' in ln:
                nm, body = ln.split(' = type ', 1)
                nm = unq(nm.strip())
                t = self.types.setdefault(nm, T('struct', name=nm))
                if body.strip() != 'opaque':
                    lx = Lex(body)
                    tt = self.type(lx)
                    t.fields = tt.fields; t.packed = tt.packed
            elif ln.startswith('@'):
                gl.append(ln)
            i += 1
        for ln in gl: self._global(ln)

    def _header(self, ln, body):
        f = Fn()
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', ln)
        f.name = unq('@' + m.group(1))
        f.pre = ln[:m.start()]
        lx = Lex(ln[m.end():])
        params = []
        f.vararg = False
        idx = 0
        while True:
            if lx.accept(')'): break
            if lx.accept(','): continue
            if lx.accept('...'):
                f.vararg = True; continue
            ty = self.type(lx)
            byval = self.attrs(lx)
            nm = None
            if lx.peek() and lx.peek().startswith('%'): nm = unq(lx.next())
            else: nm = str(idx)
            params.append((ty, nm, byval))
            idx += 1
        f.params = params
        pre = f.pre.split(' ', 1)[1]
        lx = Lex(pre)
        self.attrs(lx)
        f.ret = self.type(lx)
        f.lines = body
        f.decl = body is None
        if f.name not in self.fns or self.fns[f.name].decl: self.fns[f.name] = f

    def attrs(self, lx):
        byval = None
        while True:
            p = lx.peek()
            if p in SKIPWORDS: lx.next()
            elif p == 'align':
                lx.next()
                if lx.accept('('): lx.next(); lx.expect(')')
                else: lx.next()
            elif p in ('sret', 'byval', 'elementtype', 'inalloca', 'preallocated', 'byref'):
                w = lx.next(); lx.expect('('); t = self.type(lx); lx.expect(')')
                if w == 'byval': byval = t
            elif p in PARENWORDS:
                lx.next(); lx.expect('('); d = 1
                while d:
                    x = lx.next()
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            elif p == '#': lx.next(); lx.next()
            else: return byval

    def type(self, lx):
        x = lx.next()
        if x[0] == 'i' and x[1:].isdigit(): t = INT(int(x[1:]))
        elif x == 'ptr': t = PTR
        elif x == 'void': t = VOID
        elif x == 'float': t = FLOAT
        elif x == 'double': t = DOUBLE
        elif x == 'half': t = HALF
        elif x == 'x86_fp80': t = X86FP80
        elif x == 'label': t = LABEL
        elif x == 'metadata': t = META
        elif x == 'token': t = TOKEN
        elif x == '[':
            n = int(lx.next()); lx.expect('x'); e = self.type(lx); lx.expect(']')
            t = T('arr', n, e)
        elif x == '<':
            if lx.accept('{'):
                fs = self.fields(lx); lx.expect('>')
                t = T('struct', fields=fs, packed=True)
            else:
                n = int(lx.next()); lx.expect('x'); e = self.type(lx); lx.expect('>')
                t = T('vec', n, e)
        elif x == '{':
            t = T('struct', fields=self.fields(lx))
        elif x[0] == '%':
            t = self.types.setdefault(unq(x), T('struct', name=unq(x)))
        else: raise Exception('type? %s in %s' % (x, ' '.join(lx.t[max(0, lx.i - 10):lx.i + 10])))
        # function type:  ret (args...)
        if lx.peek() == '(' and False: pass
        return t

    def fields(self, lx):
        fs = []
        while True:
            if lx.accept('}'): return fs
            if lx.accept(','): continue
            fs.append(self.type(lx))

    def _global(self, ln):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$', ln)
        name = unq('@' + m.group(1)); rest = m.group(2)
        lx = Lex(rest)
        if ' alias ' in ' ' + rest:
            lx = Lex(rest[rest.rindex(', ptr ') + 2:])
            ty = self.type(lx)
            v = self.const(lx, ty)
            self.aliases[name] = v
            return
        const = False; ext = False
        while True:
            p = lx.next()
            if p in ('external', 'extern_weak'): ext = True
            if p == 'global': break
            if p == 'constant': const = True; break
            if p in ('thread_local', 'addrspace') and lx.peek() == '(':
                while lx.next() != ')': pass
        ty = self.type(lx)
        init = None
        if not ext and lx.peek() not in (None, ','):
            init = (lx, lx.i)   # lazy
        self.gdef[name] = (ty, init, const)

    def ginit(self, name):
        ty, init, const = self.gdef[name]
        if init is None: return ty, None, const
        lx, i = init
        lx.i = i
        return ty, self.const(lx, ty), const

    def const(self, lx, ty):
        x = lx.peek()
        k = ty.k
        if x in ('undef', 'poison'): lx.next(); return UNDEF
        if x == 'zeroinitializer': lx.next(); return ZERO
        if x == 'null': lx.next(); return Sym(None, 0)
        if x == 'none': lx.next(); return UNDEF
        if x == 'true': lx.next(); return 1
        if x == 'false': lx.next(); return 0
        if x[0] == '@':
            lx.next(); return Sym(unq(x))
        if x == 'getelementptr':
            lx.next()
            while lx.peek() in SKIPWORDS: lx.next()
            if lx.peek() == 'inrange':
                lx.next()
                if lx.accept('('):
                    while lx.next() != ')': pass
            lx.expect('(')
            bt = self.type(lx); lx.expect(',')
            pt = self.type(lx); base = self.const(lx, pt)
            idx = []
            while lx.accept(','):
                while lx.peek() in ('inrange',): lx.next()
                it = self.type(lx); idx.append(self.const(lx, it))
            lx.expect(')')
            off = gep_const(bt, idx)
            if isinstance(base, Sym): return Sym(base.name, base.off + off)
            return CExpr('gep', (base, off))
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast', 'zext', 'sext'):
            lx.next(); lx.expect('(')
            t1 = self.type(lx); v = self.const(lx, t1); lx.expect('to'); t2 = self.type(lx); lx.expect(')')
            return CExpr(x, (t1, v, t2))
        if x in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'icmp', 'select'):
            lx.next()
            pred = None
            if x == 'icmp': pred = lx.next()
            while lx.peek() in ('nsw', 'nuw'): lx.next()
            lx.expect('(')
            args = []
            while not lx.accept(')'):
                if lx.accept(','): continue
                t1 = self.type(lx); args.append((t1, self.const(lx, t1)))
            return CExpr(x, (pred, args))
        if x == 'dso_local_equivalent' or x == 'no_cfi':
            lx.next(); return self.const(lx, ty)
        lx.next()
        if k == 'int': return int(x) & ((1 << ty.n) - 1)
        if k in ('float', 'double', 'half'): return fconst(k, x)
        if k == 'x86_fp80': return UNDEF
        if k == 'ptr': raise Exception('ptr const ' + x)
        if k == 'arr' and x[0] == 'c' and x[1] == '"':
            s = x[2:-1]; out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\': out.append(92); i += 2
                    else: out.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    out += list(s[i].encode('latin1', 'replace') if ord(s[i]) < 256 else s[i].encode()); i += 1
            return tuple(out)
        if x in ('[', '<', '{'):
            if x == '<' and k == 'struct': lx.expect('{')
            vals = []
            close = {'[': ']', '<': '>', '{': '}'}[x]
            if x == '<' and k == 'struct': close = '}'
            while not lx.accept(close):
                if lx.accept(','): continue
                t1 = self.type(lx); vals.append(self.const(lx, t1))
            if x == '<' and k == 'struct': lx.expect('>')
            return tuple(vals)
        raise Exception('const? %s for %r: %s' % (x, ty, ' '.join(lx.t[max(0, lx.i - 10):lx.i + 10])))

    # ---------------------------------------------------------------- function bodies
    def body(self, f):
        if f.blocks is not None: return
        f.blocks = {}
        f.order = []
        cur = None
        lines = f.lines
        i = 0; n = len(lines)
        first = True
        nparams = len(f.params)
        while i < n:
            ln = lines[i]; i += 1
            if not ln.strip(): continue
            c = ln.find(' ; preds')
            m = re.match(r'^("[^"]*"|[\w.$-]+):', ln)
            if m and not ln.startswith(' '):
                lab = m.group(1)
                if lab.startswith('"'): lab = lab[1:-1]
                cur = []; f.blocks[lab] = cur; f.order.append(lab)
                if first: f.entry = lab; first = False
                continue
            if first:
                f.entry = str(nparams); cur = []; f.blocks[f.entry] = cur; f.order.append(f.entry); first = False
            s = ln.strip()
            if s.startswith(';'): continue
            if re.match(r'^(%("[^"]*"|\S+) = )?(tail )?(invoke|landingpad|switch) ', s):
                if ' switch ' in ' ' + s:
                    while not s.rstrip().endswith(']') and ']' not in s.split('[', 1)[-1]:
                        s += ' ' + lines[i].strip(); i += 1
                else:
                    while i < n and re.match(r'^\s+(to label|cleanup|catch|filter)\b', lines[i]):
                        s += ' ' + lines[i].strip(); i += 1
            try:
                ins = self.instr(s)
            except Exception as e:
                raise Exception('parse error in %s: %s: %s' % (f.name, s, e))
            if ins is not None: cur.append(ins)
        f.lines = None

    def val(self, lx, ty):
        x = lx.peek()
        if x[0] == '%': return ('r', unq(lx.next()))
        if ty.k == 'metadata':
            # skip metadata operand
            if lx.accept('!'):
                lx.next()
                if lx.peek() == '(':
                    d = 0
                    while True:
                        y = lx.next()
                        if y == '(': d += 1
                        if y == ')':
                            d -= 1
                            if d == 0: break
            else:
                t = self.type(lx); self.val(lx, t)
            return ('k', UNDEF)
        return ('k', self.const(lx, ty))

    def tval(self, lx):
        t = self.type(lx)
        bv = self.attrs(lx)
        return (t, self.val(lx, t), bv)

    def instr(self, s):
        # strip trailing metadata
        c = s.find(', !')
        if c >= 0 and 'metadata' not in s: s = s[:c]
        lx = Lex(s)
        dest = None
        if lx.peek()[0] == '%' and lx.t[1] == '=':
            dest = unq(lx.next()); lx.next()
        op = lx.next()
        if op in ('tail', 'musttail', 'notail'): op = lx.next()
        if op in BIN:
            fl = []
            while lx.peek() in FLAGS: fl.append(lx.next())
            t = self.type(lx); a = self.val(lx, t); lx.expect(','); b = self.val(lx, t)
            return Instr(op, dest, t, (a, b), None, tuple(fl))
        if op in ('icmp', 'fcmp'):
            while lx.peek() in FLAGS: lx.next()
            pred = lx.next()
            t = self.type(lx); a = self.val(lx, t); lx.expect(','); b = self.val(lx, t)
            return Instr(op, dest, t, (a, b), pred)
        if op in ('fneg', 'freeze'):
            while lx.peek() in FLAGS: lx.next()
            t = self.type(lx); a = self.val(lx, t)
            return Instr(op, dest, t, (a,))
        if op == 'load':
            while lx.peek() in ('volatile', 'atomic'): lx.next()
            t = self.type(lx); lx.expect(','); self.type(lx); p = self.val(lx, PTR)
            return Instr('load', dest, t, (p,))
        if op == 'store':
            while lx.peek() in ('volatile', 'atomic'): lx.next()
            t = self.type(lx); v = self.val(lx, t); lx.expect(','); self.type(lx); p = self.val(lx, PTR)
            return Instr('store', None, t, (v, p))
        if op == 'getelementptr':
            while lx.peek() in ('inbounds', 'nuw', 'nusw'): lx.next()
            t = self.type(lx); lx.expect(',')
            pt = self.type(lx); p = self.val(lx, pt)
            idx = []
            while lx.accept(','):
                it = self.type(lx); idx.append((it, self.val(lx, it)))
            return Instr('gep', dest, t, (p,), gep_plan(t, idx))
        if op == 'br':
            if lx.accept('label'): return Instr('jmp', x=unq(lx.next()))
            t = self.type(lx); c = self.val(lx, t); lx.expect(','); lx.expect('label'); a = unq(lx.next()); lx.expect(','); lx.expect('label'); b = unq(lx.next())
            return Instr('br', None, t, (c,), (a, b))
        if op == 'switch':
            t = self.type(lx); v = self.val(lx, t); lx.expect(','); lx.expect('label'); d = unq(lx.next()); lx.expect('[')
            cs = []
            while not lx.accept(']'):
                t1 = self.type(lx); c = self.const(lx, t1); lx.expect(','); lx.expect('label'); cs.append((c, unq(lx.next())))
            return Instr('switch', None, t, (v,), (d, cs))
        if op == 'ret':
            t = self.type(lx)
            if t.k == 'void': return Instr('ret', None, t, ())
            return Instr('ret', None, t, (self.val(lx, t),))
        if op == 'phi':
            while lx.peek() in FLAGS: lx.next()
            t = self.type(lx)
            inc = {}
            while True:
                lx.expect('['); v = self.val(lx, t); lx.expect(','); l = unq(lx.next()); lx.expect(']')
                inc[l] = v
                if not lx.accept(','): break
            return Instr('phi', dest, t, (), inc)
        if op == 'select':
            while lx.peek() in FLAGS: lx.next()
            c = self.tval(lx); lx.expect(','); a = self.tval(lx); lx.expect(','); b = self.tval(lx)
            return Instr('select', dest, a[0], (c[1], a[1], b[1]), c[0])
        if op in CASTS:
            while lx.peek() in FLAGS: lx.next()
            t = self.type(lx); v = self.val(lx, t); lx.expect('to'); t2 = self.type(lx)
            return Instr(op, dest, t2, (v,), t)
        if op in ('call', 'invoke'):
            while True:
                p = lx.peek()
                if p in FLAGS or p in ('cc',): lx.next()
                elif p is not None and p in SKIPWORDS: lx.next()
                else: break
            self.attrs(lx)
            rt = self.type(lx)
            if lx.peek() == '(':
                # function type
                d = 0
                while True:
                    y = lx.next()
                    if y == '(': d += 1
                    if y == ')':
                        d -= 1
                        if d == 0: break
            callee = lx.next()
            if callee == 'asm':
                rest = lx.t[lx.i:]
                return Instr('asm', dest, rt, (), ' '.join(rest))
            if callee[0] == '@': cal = ('f', unq(callee))
            elif callee[0] == '%': cal = ('r', unq(callee))
            else:
                lx.i -= 1
                cal = ('k', self.const(lx, PTR))
            lx.expect('(')
            args = []
            while not lx.accept(')'):
                if lx.accept(','): continue
                args.append(self.tval(lx))
            x = [cal, None, None]
            if op == 'invoke':
                while lx.peek() != 'to': lx.next()
                lx.next(); lx.expect('label'); x[1] = unq(lx.next()); lx.expect('unwind'); lx.expect('label'); x[2] = unq(lx.next())
            return Instr(op, dest, rt, tuple(args), tuple(x))
        if op == 'landingpad':
            t = self.type(lx)
            clauses = []; cleanup = False
            while not lx.eof():
                y = lx.next()
                if y == 'cleanup': cleanup = True
                elif y in ('catch', 'filter'):
                    t1 = self.type(lx); clauses.append((y, self.const(lx, t1)))
                else: break
            return Instr('landingpad', dest, t, (), (cleanup, clauses))
        if op == 'resume':
            v = self.tval(lx); return Instr('resume', None, v[0], (v[1],))
        if op == 'unreachable': return Instr('unreachable')
        if op == 'extractvalue':
            v = self.tval(lx); idx = []
            while lx.accept(','): idx.append(int(lx.next()))
            return Instr(op, dest, v[0], (v[1],), idx)
        if op == 'insertvalue':
            v = self.tval(lx); lx.expect(','); w = self.tval(lx); idx = []
            while lx.accept(','): idx.append(int(lx.next()))
            return Instr(op, dest, v[0], (v[1], w[1]), idx)
        if op == 'extractelement':
            v = self.tval(lx); lx.expect(','); w = self.tval(lx)
            return Instr(op, dest, v[0], (v[1], w[1]))
        if op == 'insertelement':
            v = self.tval(lx); lx.expect(','); w = self.tval(lx); lx.expect(','); i = self.tval(lx)
            return Instr(op, dest, v[0], (v[1], w[1], i[1]))
        if op == 'shufflevector':
            v = self.tval(lx); lx.expect(','); w = self.tval(lx); lx.expect(','); m = self.tval(lx)
            return Instr(op, dest, v[0], (v[1], w[1]), m)
        if op == 'alloca':
            t = self.type(lx); cnt = None
            if lx.accept(','):
                if lx.peek() != 'align':
                    c = self.tval(lx); cnt = c[1]
            return Instr('alloca', dest, t, (cnt,) if cnt else ())
        if op == 'atomicrmw':
            lx.accept('volatile')
            o = lx.next(); p = self.tval(lx); lx.expect(','); v = self.tval(lx)
            return Instr('atomicrmw', dest, v[0], (p[1], v[1]), o)
        if op == 'cmpxchg':
            lx.accept('weak'); lx.accept('volatile')
            p = self.tval(lx); lx.expect(','); c = self.tval(lx); lx.expect(','); v = self.tval(lx)
            return Instr('cmpxchg', dest, c[0], (p[1], c[1], v[1]))
        if op == 'fence': return None
        raise Exception('instr ' + op)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
FLAGS = set('nsw nuw exact disjoint fast nnan ninf nsz arcp contract afn reassoc nneg inbounds'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


def fconst(k, x):
    if x.startswith('0xH'): return int(x[3:], 16)
    if x.startswith('0x'): d = f64bits_to_float(int(x, 16))
    else: d = float(x)
    if k == 'double': return int(x, 16) if x.startswith('0x') else double_bits(d)
    if k == 'float':
        if d != d: return 0x7fc00000 | ((int(x, 16) >> 63) << 31)
        return float_bits(d)
    raise Exception('half const')


def s64(v, n=64):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def gep_const(bt, idx):
    off = 0
    t = None
    for n, i in enumerate(idx):
        if i is ZERO: i = 0
        i = s64(i) if i < (1 << 63) else i - (1 << 64)
        if n == 0:
            if i: off += i * sizeof(bt)
            t = bt
        elif t.k == 'struct':
            off += offsets(t)[i]; t = t.fields[i]
        else:
            off += i * sizeof(t.e); t = t.e
    return off


def gep_plan(bt, idx):
    """-> list of (const, None) / (scale, operand, width)"""
    const = 0; var = []
    t = None
    for n, (it, v) in enumerate(idx):
        if n == 0: sc = sizeof(bt) if not (v[0] == 'k' and v[1] == 0) else 0; nt = bt
        elif t.k == 'struct':
            assert v[0] == 'k'
            const += offsets(t)[v[1]]; t = t.fields[v[1]]
            continue
        else: sc = sizeof(t.e); nt = t.e
        if v[0] == 'k':
            if v[1] is not ZERO: const += s64(v[1], it.n) * sc
        else: var.append((sc, v, it.n))
        t = nt
    return (const, var)
