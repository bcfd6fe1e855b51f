#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]  -- decide one property on /repo's current working tree.

1. compile the real sources of /repo and the contract harnesses to LLVM IR; generate and discharge every
   proof obligation (engine/), function by function;
2. compile the same harnesses natively (ASan+UBSan) with the real sources; replay every solver
   counterexample there, and search for a failing input for obligations without one;
3. write /verif/evidence/<property>.json; exit 0 = held, 1 = violation (VIOLATION line)."""
import sys, os, json, time, argparse, importlib.util, multiprocessing as mp, subprocess, traceback, signal, re, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import build
sys.setrecursionlimit(20000)


def load_prop(pid):
    p = os.path.join(HERE, 'contracts', pid.replace('-', '_') + '.py')
    spec = importlib.util.spec_from_file_location('prop', p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(HERE, 'contracts'))
    spec.loader.exec_module(m)
    return m


def run_harness(args):
    """in a forked child: prove one harness"""
    mod, name, cfg, tier, deadline, verbose = args
    import machine
    t = time.time()
    res = dict(name=name, obligations=0, discharged=0, failures=[], incomplete=[], covers={}, fns=[])
    try:
        kw = {k: cfg[k] for k in ('mode', 'fp', 'max_paths', 'max_steps', 'max_unroll', 'timeout_ms', 'hard_timeout', 'replace', 'loops', 'overflow', 'auto_loops', 'fork_limit', 'gf2') if k in cfg}
        m = machine.Machine(mod, deadline=deadline, log=(lambda *a: print('   ', name, *a, flush=True)) if verbose else None, **kw)
        if 'small_cells' in cfg: m.small_cells = cfg['small_cells']
        if 'opaque_text' in cfg: m.opaque_text = cfg['opaque_text']
        if 'setup' in cfg: cfg['setup'](m)
        m.explore('vch_' + cfg.get('entry', name))
        res.update(obligations=m.obl_total, discharged=m.obl_done, trivial=m.obl_trivial, kinds=m.obl_kinds, paths=m.paths, paths_done=m.paths_done,
                   queries=m.nq, solver_s=round(m.tq, 2), backends=m.backends, covers=m.covers, incomplete=sorted(set(m.incomplete)),
                   fns=sorted({mod.fns[n].dem for n in m.fns_run if is_repo_fn(mod.fns[n].dem)}),
                   contracts=sorted({mod.fns[n].dem for n in m.contracts_used}), notes=m.model_used, loop_cuts=m.loop_cuts,
                   failures=[dict(kind=f.kind, msg=f.msg, where=f.where, inputs=f.inputs, status=f.status, stack=f.stack) for f in m.failures])
    except Exception as e:
        res['incomplete'] = res['incomplete'] + ['engine error: %s' % e]
        if verbose: traceback.print_exc()
    res['wall'] = round(time.time() - t, 2)
    return res


def is_repo_fn(d): return ('ts::' in d and not d.startswith('std::')) or not re.match(r'^(std|vch_|contract_|__gnu|void std|bool std|operator|main|unsigned|int\*? std)', d) and '(' in d


def fmt_inputs(inp):
    return ''.join('%s %s %d %s\n' % (n, k, len(v), ' '.join(map(str, v))) for n, k, v in inp)


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=78')


def native_run(nat, args, timeout):
    cwd = tempfile.mkdtemp(prefix='vcnat')      # files written by the code under test stay in here
    try:
        p = subprocess.run([nat] + args, capture_output=True, text=True, timeout=timeout, env=ENV, errors='replace', cwd=cwd)
        return p.returncode, (p.stdout[-3000:] + p.stderr[-3000:])
    except subprocess.TimeoutExpired as e:
        return -999, 'timeout'
    finally:
        shutil.rmtree(cwd, ignore_errors=True)


def confirmed(rc, out): return rc == 3 or rc in (77, 78) or (rc < 0 and rc != -999)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-prove', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = load_prop(a.prop)
    budget = 800 if a.tier == 'quick' else getattr(P, 'THOROUGH_BUDGET', 3000)
    work = os.environ.get('VERIF_WORK') or os.path.join(HERE, '.build', a.prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    results = []; native = {}; undecided = []; rnd_s = 0
    violations = []; unconfirmed = []
    rand_info = {}
    known_lines = []
    for ui, U in enumerate(P.UNITS):
        cpp = os.path.join(HERE, 'contracts', U['cpp'])
        names = build.harness_names(cpp)
        cfgs = {}
        for n in names:
            c = dict(U.get('defaults', {})); c.update(U.get('harness', {}).get(n, {}))
            if c.get('tier') == 'thorough' and a.tier != 'thorough': continue
            if a.only and not re.search(a.only, n): continue
            cfgs[n] = c
        if not cfgs: continue
        extra = tuple(U.get('flags', ()))
        # --- IR + native builds (whole library as a fallback when code moved between files)
        mod = None; nat = None; err = []
        srcs = build.sources(U['sources'])
        provable = [n for n in cfgs if not cfgs[n].get('native_only')]
        if provable and not a.no_prove:
            try:
                import llparse
                ll = build.ir_module(cpp, srcs, U.get('keep_ctors', ()), extra, inline=U.get('inline'), select=U.get('select', False))
                mod = llparse.Module(open(ll).read())
            except Exception as e: err.append('ir build: %s' % str(e)[-1500:])
        if not a.no_native:
            try: nat = build.native(cpp, srcs, os.path.join(work, 'nat%d' % ui), extra)
            except Exception as e: err.append('native build: %s' % str(e)[-1500:])
        if err:
            for e in err: print('BUILD-PROBLEM', e)
            if mod is None and nat is None: undecided += err; continue
            undecided += err
        # --- proofs
        deadline = t0 + budget - 120
        todo = [(n, cfgs[n]) for n in provable] if mod else []
        todo.sort(key=lambda x: -x[1].get('weight', 1))
        res = []
        if todo:
            ctx = mp.get_context('fork')
            global _MOD
            _MOD = mod
            with ctx.Pool(build.NJ, maxtasksperchild=1) as pool:
                hs = [(n, c, pool.apply_async(_child, ((n, {}, P.__file__, ui, a.tier, min(deadline, t0 + budget - 100), a.v),))) for n, c in todo]
                for n, c, h in hs:
                    try: r = h.get(timeout=max(5, t0 + budget - 60 - time.time()))
                    except mp.TimeoutError: r = dict(name=n, obligations=0, discharged=0, failures=[], incomplete=['proof timeout'], covers={}, fns=[], wall=0)
                    except Exception as e: r = dict(name=n, obligations=0, discharged=0, failures=[], incomplete=['engine crash %s' % e], covers={}, fns=[], wall=0)
                    r['bounded'] = c.get('bounded'); r['unit'] = ui
                    r['need'] = c.get('covers', ['end'])
                    res.append(r)
                pool.terminate()
        for r in res:
            for c in r['need']:
                if not r['covers'].get(c) and not r['failures']: r['incomplete'].append('vacuity: cover point %s not reached' % c)
            r['proved'] = not r['failures'] and not r['incomplete'] and r['obligations'] > 0
            if a.v or not r['proved']:
                print('[%s] %s obligations %d/%d paths %s wall %ss %s' % ('proved' if r['proved'] else 'OPEN', r['name'], r['discharged'], r['obligations'], r.get('paths'), r['wall'], '; '.join(r['incomplete'])[:600]), flush=True)
        results += res
        # --- replay of counterexamples
        if nat:
            for r in res:
                for i, f in enumerate(r['failures']):
                    if f['status'] != 'refuted' or f['inputs'] is None: continue
                    path = os.path.join(rdir, '%s-%s-%d.txt' % (a.prop, r['name'], i))
                    with open(path, 'w') as fh:
                        fh.write('# property %s harness %s\n# obligation %s: %s\n# in %s\n' % (a.prop, r['name'], f['kind'], f['msg'], f['where']))
                        fh.write(fmt_inputs(f['inputs']))
                    rc, out = native_run(nat, ['replay', r['name'], path], 90)
                    f['replay'] = dict(path=path, rc=rc, out=out[-600:])
                    if confirmed(rc, out):
                        violations.append(dict(harness=r['name'], path=path, why='%s: %s in %s' % (f['kind'], f['msg'], f['where']), out=out[-800:]))
                        with open(path, 'a') as fh: fh.write('# native replay: %s\n' % out[-800:].replace('\n', '\n# '))
                        break
            # --- directed search: all harnesses (short), open ones (long)
            jobs = []
            for n in cfgs:
                r = next((x for x in res if x['name'] == n), None)
                if any(v['harness'] == n for v in violations): continue
                base = cfgs[n].get('rand', 2.0)
                if base == 0: continue
                open_ = (r is None or not r['proved'])
                secs = base if not open_ else max(base, 20 if a.tier == 'quick' else 60)
                if a.tier == 'thorough': secs = max(secs * 5, 10)
                jobs.append((n, nat, secs, seed, os.path.join(work, n + '.rnd'), cfgs[n].get('max_iter', 0)))
            left = t0 + budget - 20 - time.time()
            tot = sum(j[2] for j in jobs) / build.NJ
            if tot > left > 0: jobs = [(n, x, s * left / tot * 0.9, sd, o, mi) for (n, x, s, sd, o, mi) in jobs]
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(build.NJ) as ex:
                for n, rc, out, o in ex.map(rnd, jobs):
                    m = re.search(r'iterations (\d+) satisfied-precondition (\d+)', out)
                    rand_info[n] = [int(m.group(1)), int(m.group(2))] if m else [0, 0]
                    if rc == 0 and m and int(m.group(2)) == 0: undecided.append('%s: directed search satisfied the precondition on no input' % n)
                    if confirmed(rc, out):
                        path = os.path.join(rdir, '%s-%s-search.txt' % (a.prop, n))
                        try: shutil.copy(o, path)
                        except OSError: open(path, 'w').write('# no input dumped\n')
                        with open(path, 'a') as fh: fh.write('# native run: %s\n' % out[-1500:].replace('\n', '\n# '))
                        why = re.search(r'VCFAIL.*', out)
                        violations.append(dict(harness=n, path=path, why=why.group(0) if why else 'crash rc=%d' % rc, out=out[-800:]))
                    elif rc == -999: pass
                    elif rc != 0: undecided.append('%s: native driver rc=%d %s' % (n, rc, out[-200:]))
        for r in res:
            if r['proved'] or any(v['harness'] == r['name'] for v in violations): continue
            ref = [f for f in r['failures'] if f['status'] == 'refuted']
            if ref:
                path = os.path.join(rdir, '%s-%s-obligation.txt' % (a.prop, r['name']))
                with open(path, 'w') as fh:
                    fh.write('# property %s harness %s: obligation refuted by the solver, no failing input reproduced on the real code\n' % (a.prop, r['name']))
                    for f in ref:
                        fh.write('obligation %s: %s in %s status %s\nstack %s\nmodel:\n%s\nreplay: %s\n' % (f['kind'], f['msg'], f['where'], f['status'], f['stack'], fmt_inputs(f['inputs'] or []), f.get('replay')))
                unconfirmed.append(dict(harness=r['name'], path=path, why='%s: %s in %s' % (ref[0]['kind'], ref[0]['msg'], ref[0]['where'])))
            else:
                undecided += ['%s: %s' % (r['name'], x) for x in r['incomplete']] + ['%s: %s %s unknown' % (r['name'], f['kind'], f['msg']) for f in r['failures']]
        # --- known findings: inputs recorded in known_findings.json are replayed
        kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
        for k in kf:
            if k['property'] == a.prop and k.get('unit', 0) == ui and nat:
                rc, out = native_run(nat, ['replay', k['harness'], os.path.join(HERE, 'known', k['input'])], 60)
                if confirmed(rc, out): known_lines.append('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for l in known_lines: print(l)
    proved = [r for r in results if r['proved'] and not r['bounded']]
    bnd = [r for r in results if r['proved'] and r['bounded']]
    opn = [r for r in results if not r['proved']]
    fns = sorted({f for r in results if r['proved'] and not r['bounded'] for f in r['fns']})
    bfns = sorted({f for r in bnd for f in r['fns']} - set(fns))
    unb = [r for r in results if not r['bounded']]
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=getattr(P, 'LEVEL', 'proof'), wall_s=round(time.time() - t0, 1), violations=len(violations) + len(unconfirmed),
              coverage=dict(
                  obligations=sum(r['obligations'] for r in unb), discharged=sum(r['discharged'] for r in unb),
                  trivially_discharged=sum(r.get('trivial', 0) for r in unb),
                  checker_cmd='python3-vt check.py %s --tier %s' % (a.prop, a.tier),
                  trusted_base=TRUSTED + list(getattr(P, 'TRUSTED', [])),
                  contracts_proved=len(proved), contracts_open=len(opn), open=[dict(name=r['name'], reasons=r['incomplete'][:3] + [f['kind'] + ' ' + f['msg'] for f in r['failures'][:3]]) for r in opn],
                  functions_under_contract=len(fns), functions=fns,
                  bounded_standins=[dict(contract=r['name'], bound=r['bounded'], obligations=r['obligations'], discharged=r['discharged']) for r in bnd],
                  bounded_functions=bfns,
                  solver_queries=sum(r.get('queries', 0) for r in results), solver_s=round(sum(r.get('solver_s', 0) for r in results), 1),
                  back_ends={k: sum(r.get('backends', {}).get(k, 0) for r in results) for k in ('z3', 'cvc5', 'gf2')},
                  paths=sum(r.get('paths_done', 0) for r in results), loop_invariant_cuts=sum(r.get('loop_cuts', 0) for r in results),
                  obligation_kinds=merge([r.get('kinds', {}) for r in unb]),
                  callee_contracts_used=sorted({c for r in results for c in r.get('contracts', [])}),
                  cover_points={r['name']: r['covers'] for r in results},
                  runtime_contract_runs=dict(note='the same contracts executed on the sanitized real code (not counted as proof)', evaluations=sum(v[1] for v in rand_info.values()), per_contract=rand_info),
                  undecided=undecided[:40],
                  explanation=getattr(P, 'EXPLANATION', ''),
                  evaluations=sum(v[1] for v in rand_info.values()), distinct_nontrivial=sum(v[1] for v in rand_info.values()),
                  rule='runtime contract runs: inputs drawn by the harness generator that satisfy the precondition', samples=sample(work)),
              assumptions=list(getattr(P, 'ASSUMPTIONS', [])))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print('property %s tier %s: %d contracts proved, %d bounded, %d open; obligations %d/%d; runtime contract runs %d; wall %.1fs' % (
        a.prop, a.tier, len(proved), len(bnd), len(opn), ev['coverage']['discharged'], ev['coverage']['obligations'], ev['coverage']['evaluations'], time.time() - t0))
    for u in undecided[:20]: print('UNDECIDED', u[:400])
    if violations:
        for v in violations[:5]: print('  failing: %s %s' % (v['harness'], v['why'][:300]))
        print('VIOLATION property=%s replay=%s' % (a.prop, violations[0]['path']))
        return 1
    if unconfirmed:
        for v in unconfirmed[:5]: print('  obligation: %s %s' % (v['harness'], v['why'][:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (a.prop, unconfirmed[0]['path']))
        return 1
    if not results and not rand_info:
        print('nothing could be checked'); return 2
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)
    return 0


TRUSTED = ['engine/: the VC generator over LLVM IR (parser, memory model, instruction semantics) and z3 / cvc5',
           'clang 18 -O0 front end; LLVM sroa+simplifycfg preserve semantics; the shipped g++ -O3 build compiles the same sources',
           'allocator never returns null; distinct allocations are disjoint',
           'libc/libstdc++ out-of-line functions modelled in engine/builtins_model.py and engine/vc_support.cpp (reference bodies)',
           'logging (ts::LogStream) modelled: formatting has no effect, eject throws EjectionException, fatal terminates',
           'single thread (no interleavings)']


def merge(ds):
    o = {}
    for d in ds:
        for k, v in d.items(): o[k] = o.get(k, 0) + v
    return o


def sample(work):
    return ['inputs are regenerated from VERIF_SEED; see replays/ for failing ones']


def rnd(j):
    n, nat, secs, seed, o, mi = j
    rc, out = native_run(nat, ['random', n, str(seed), '%.2f' % secs, o] + ([str(mi)] if mi else []), secs + 90)
    return n, rc, out, o


_MOD = None
_PROPS = {}


def _child(x):
    n, c, pfile, ui, tier, deadline, verbose = x
    # callables (loop invariants, setup hooks) are taken from the property module of the forked parent
    P = sys.modules.get('prop_loaded') or load_prop(os.path.basename(pfile)[:-3])
    U = P.UNITS[ui]
    cfg = dict(U.get('defaults', {})); cfg.update(U.get('harness', {}).get(n, {}))
    if 'time' in cfg: deadline = min(deadline, time.time() + cfg['time'] * (1 if tier == 'quick' else 4))
    return run_harness((_MOD, n, cfg, tier, deadline, verbose))


if __name__ == '__main__':
    sys.exit(main())
