"""Builds, from /repo's current working tree: (1) LLVM IR of the real sources + a contract file for the VC
generator, (2) a native sanitized replay binary of the same contract file + real sources."""
import os, re, subprocess, hashlib, sys, glob, concurrent.futures as cf, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE') or os.path.join(VERIF, '.cache')
DEFS = ['-DBUILDING_TENNIS', '-DTS_DISABLE_PARALLEL', '-DTS_SOLUTION_DIR="%s"' % REPO, '-DTS_USE_AVX', '-DTS_USE_DEBUG_API', '-DTS_USE_FMA', '-DTS_USE_HOOK', '-DTS_USE_OPENMP',
        '-DTS_USE_PROFILER', '-DTS_USE_SIMD', '-DNDEBUG']
INC = ['-I', REPO + '/include', '-I', REPO + '/src', '-I', HERE, '-I', HERE + '/omp']
ARCH = ['-mavx', '-mavx2', '-mfma']
BASE = ['-std=c++11', '-w', '-fPIC']
NJ = int(os.environ.get('VERIF_JOBS', '8'))


class BuildError(Exception):
    pass


def sources(pats):
    out = []
    neg = [p[1:] for p in pats if p.startswith('!')]
    for p in pats:
        if p.startswith('!'): continue
        g = sorted(glob.glob(os.path.join(REPO, 'src', p), recursive=True))
        out += [x for x in g if x.endswith('.cpp') and x not in out]
    import fnmatch
    out = [x for x in out if not any(fnmatch.fnmatch(os.path.relpath(x, REPO + '/src'), n) for n in neg)]
    return [x for x in out if '/gpu/' not in x and '/rknn/' not in x and '/arm/' not in x and '/cblas/' not in x]


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-3000:]))
    return p.stdout


def pphash(src, flags):
    p = subprocess.run(['clang++', '-E', '-P'] + flags + [src], capture_output=True)
    if p.returncode: raise BuildError('preprocess %s\n%s' % (src, p.stderr.decode()[-3000:]))
    h = hashlib.sha256(p.stdout); h.update(' '.join(flags).encode())
    if src.endswith(('.cpp',)): h.update(os.path.basename(src).encode())
    return h.hexdigest()[:32]


def cached(src, flags, ext, cmd):
    os.makedirs(CACHE, exist_ok=True)
    h = pphash(src, flags)
    out = os.path.join(CACHE, h + ext)
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        cmd(src, tmp)
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


IRFLAGS = BASE + ARCH + DEFS + ['-D_GLIBCXX_EXTERN_TEMPLATE=0', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-threadsafe-statics', '-ffp-contract=off'] + INC


def ir_one(src, extra=()):
    flags = IRFLAGS + list(extra)
    keep = '-DVC_KEEP_CTORS' in extra

    def cmd(s, o):
        p = subprocess.run(['clang++', '-S', '-emit-llvm', '-o', '-'] + flags + [s], capture_output=True, text=True)
        if p.returncode: raise BuildError('clang %s\n%s' % (s, p.stderr[-3000:]))
        t = p.stdout
        if not keep:
            t = re.sub(r'^@llvm\.global_ctors = .*$', '', t, flags=re.M)
            t = re.sub(r'^@llvm\.(compiler\.)?used = .*$', '', t, flags=re.M)
        r = subprocess.run(['opt', '-passes=globaldce', '-o', o, '-'], input=t, capture_output=True, text=True)
        if r.returncode: raise BuildError('opt %s %s' % (s, r.stderr[-2000:]))
    return cached(src, flags, '.bc', cmd)


def harness_names(cpp):
    return re.findall(r'^\s*VC_HARNESS\((\w+)\)', open(cpp).read(), re.M)


SIMPLIFY = 'function(sroa,simplifycfg<no-speculate-blocks;no-simplify-cond-branch>)'
OPTS = ['-phi-node-folding-threshold=0', '-two-entry-phi-node-folding-threshold=0']
# library code that is merged into its callers when a unit asks for it (same code, fewer calls to interpret)
INLINE = re.compile(r'^((void|bool|unsigned long|int|auto|(?:float|double|int|short|long|char|signed char|unsigned \w+) const&) )?\(?(std::|__gnu_cxx::|decltype|typename|_ZNSt)')


def mark_inline(path, keep):
    """library functions without a model of their own may be inlined, all others stay as they are"""
    import llparse, builtins_model
    t = open(path).read()
    names = re.findall(r'^define [^@\n]*@("(?:[^"]*)"|[\w.$]+)\(', t, re.M)
    dem = subprocess.run(['c++filt'], input='\n'.join(n.strip('"') for n in names), capture_output=True, text=True).stdout.split('\n')
    ok = set()
    for n, d in zip(names, dem):
        nm = n.strip('"')
        if not INLINE.search(d.split('<')[0] if not d.startswith('_Z') else d): continue
        if nm in builtins_model.EXACT or '__throw_' in nm or any(r.search(d) for r, _ in builtins_model.OPAQUE) or any(re.search(k, d) for k in keep): continue
        if re.match(r'^(void )?std::(fstream|basic_.*fstream|basic_filebuf|mutex|thread|condition_variable|atomic|random|locale|regex)', d): continue
        ok.add(n)
    t = re.sub(r'^(attributes #\d+ = \{.*)$', lambda m: re.sub(r' noinline\b', '', m.group(1)), t, flags=re.M)
    def f(m): return m.group(0) if m.group(1) in ok else re.sub(r' (#\d+)((?: [^#]*)?\{)$', r' noinline \1\2', m.group(0))
    t = re.sub(r'^define [^@\n]*@("(?:[^"]*)"|[\w.$]+)\(.*\{$', f, t, flags=re.M)
    open(path, 'w').write(t)


def common(extra):
    """flags of a unit that hold for every file of it"""
    return tuple(x for x in extra if x == '-fwrapv' or x.startswith('-fno-sanitize=signed'))


def ir_module(contract_cpp, srcs, keep_ctors=(), extra=(), passes=SIMPLIFY, inline=None, select=False):
    # select: branches without effects become selections (only for units that do not check signed overflow)
    if select: passes = 'function(sroa,simplifycfg)'
    opts = [] if select else OPTS
    """returns path to linked, pruned textual IR; inline: regexes of functions that must stay separate (None: nothing is inlined)"""
    jobs = [(contract_cpp, tuple(extra)), (os.path.join(HERE, 'vc_support.cpp'), ())]
    for s in srcs:
        jobs.append((s, common(extra) + (('-DVC_KEEP_CTORS',) if any(k in s for k in keep_ctors) else ())))
    with cf.ThreadPoolExecutor(NJ) as ex:
        bcs = list(ex.map(lambda j: ir_one(*j), jobs))
    h = hashlib.sha256(('\n'.join(bcs) + passes + contract_cpp + repr(inline) + (INLINE.pattern if inline is not None else '')).encode()).hexdigest()[:32]
    out = os.path.join(CACHE, h + '.ll')
    if os.path.exists(out): return out
    linked = out + '.%d.lnk.bc' % os.getpid()
    run(['llvm-link', '-o', linked] + bcs)
    # entry points: all harness and contract functions
    syms = run(['llvm-nm', '--defined-only', linked])
    api = [l.split()[-1] for l in syms.split('\n') if l and re.search(r'\b(vch_|contract_)', l)]
    apif = out + '.%d.api' % os.getpid()
    open(apif, 'w').write('\n'.join(api))
    tmp = out + '.%d.tmp' % os.getpid()
    run(['opt', '-S'] + opts + ['-passes=internalize,globaldce,' + passes + ',globaldce', '-internalize-public-api-file=' + apif, linked, '-o', tmp])
    if inline is not None:
        mark_inline(tmp, inline)
        run(['opt', '-S'] + opts + ['-inline-threshold=%d' % 400, '-enable-noalias-to-md-conversion=false',
            '-passes=cgscc(inline,%s),internalize,globaldce' % passes.replace('sroa,', 'sroa,early-cse,instsimplify,sroa,'), '-internalize-public-api-file=' + apif, tmp, '-o', tmp + '2'])
        os.rename(tmp + '2', tmp)
    os.unlink(linked); os.unlink(apif)
    os.rename(tmp, out)
    return out


NATFLAGS = BASE + ARCH + DEFS + ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function,alignment,nonnull-attribute', '-fno-omit-frame-pointer', '-ffp-contract=off'] + INC


def nat_one(src, extra=()):
    flags = NATFLAGS + list(extra)

    def cmd(s, o): run(['clang++', '-c', '-o', o] + flags + [s])
    return cached(src, flags, '.o', cmd)


def native(contract_cpp, srcs, out, extra=()):
    with cf.ThreadPoolExecutor(NJ) as ex:
        objs = list(ex.map(lambda s: nat_one(s, common(extra)), [os.path.join(HERE, 'vc_native.cpp')] + list(srcs)))
        hobj = nat_one(contract_cpp, tuple(extra))
    names = harness_names(contract_cpp)
    tab = out + '.tab.cpp'
    with open(tab, 'w') as f:
        f.write('struct HarnessEntry { const char *name; void (*fn)(); };\nextern "C" {\n')
        for n in names: f.write('void vch_%s();\n' % n)
        f.write('}\nHarnessEntry vc_harness_table[] = {\n')
        for n in names: f.write('{"%s", vch_%s},\n' % (n, n))
        f.write('{0, 0}};\n')
    base = ['clang++', '-o', out, tab, hobj] + objs + ['-fsanitize=address,undefined', '-lpthread', '-ldl', '-fuse-ld=lld', '-Wl,--gc-sections']
    p = subprocess.run(base + ['-Wl,--no-demangle', '-Wl,--error-limit=0'], capture_output=True, text=True)
    if p.returncode:
        # sources outside the unit: functions stay unresolved (calling one stops the driver with a lookup error);
        # data symbols get zero storage so that the program loads
        und = sorted(set(re.findall(r'undefined symbol: (\S+)', p.stderr)))
        dem = subprocess.run(['c++filt'], input='\n'.join(und), capture_output=True, text=True).stdout.split('\n')
        data = [m for m, d in zip(und, dem) if '(' not in d.replace('(anonymous namespace)', '') and m.startswith('_Z')]
        stub = out + '.stub.s'
        with open(stub, 'w') as f:
            f.write('.section .data\n')
            for d in data: f.write('.globl %s\n.balign 64\n%s: .zero 256\n' % (d, d))
            f.write('.section .note.GNU-stack,"",@progbits\n')
        run(base + [stub, '-Wl,--unresolved-symbols=ignore-all'])
    return out
