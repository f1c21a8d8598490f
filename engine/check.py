"""check.py <property> : verify every contract of the property against /repo's current tree.

1. every function under contract is extracted from the current source, executed symbolically and all obligations are discharged;
2. a failed obligation is re-examined by exact bounded unrolling (is there a definite counterexample on a path without
   abstraction?) and replayed on the real code by the property's native harness;
3. the native harness also stands in (bounded) for the functions listed as outside the verifier's reach.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: error of the check."""
import json, os, sys, time, re, importlib, subprocess, traceback, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..', 'contracts'))
import tu, nat
from tu import VERIF, BUILD

START = time.time()
HINTS = os.path.join(VERIF, 'hints')
EVID = os.path.join(VERIF, 'evidence')


def hintfile(mod, cname, i):
    return os.path.join(HINTS, '%s__%s__%d.json' % (mod, re.sub(r'\W+', '_', cname), i))


# ---------------------------------------------------------------------------------------------------- one target
def run_target(mod, idx, no_hints=False, budget=150):
    """verify contract number idx of module mod; returns a list of results (one per matching function)"""
    import z3, world, contract, execu, vc, lib
    from sorts import Unsupported
    R = contract.Registry()
    m = importlib.import_module(mod)
    m.register(R)
    W = world.World(getattr(m, 'SRC', []))
    c = R.list[idx]
    fs = sorted(c.find(W), key=lambda f: f.id)
    if c.opts.get('first'):
        fs = fs[:1]
    out = []
    if not fs:
        return [dict(contract=c.name, fn=None, status='absent', reason='no function of that name and shape in the current tree', obls=[], assumed=[], used=[], wall=0)]
    for i, fn in enumerate(fs):
        t0 = time.time()
        res = dict(contract=c.name, fn=fn.id, src=fn.tu.src if hasattr(fn.tu, 'src') else None, obls=[], assumed=[], used=[], loops=[], reason=None)
        hf = hintfile(mod, c.name, i)

        def attempt(hints, unroll=None, tl=budget):
            ex = execu.Exec(W, R)
            ex.hints = hints
            ex.unroll = unroll
            ex.deadline = time.time() + tl
            outs = contract.verify(ex, c, fn)
            return ex, outs

        hints = {}
        if not no_hints:
            try:
                hints = json.load(open(hf))
            except Exception:
                hints = {}
        try:
            ex, outs = attempt(hints)
            r = vc.discharge(ex)
            if hints and any(x[1] != 'unsat' for x in r):
                ex, outs = attempt({})
                r = vc.discharge(ex)
                res['rehinted'] = True
            if no_hints:
                os.makedirs(HINTS, exist_ok=True)
                if ex.newhints:
                    json.dump(ex.newhints, open(hf, 'w'), indent=0, sort_keys=True)
                elif os.path.exists(hf):
                    os.unlink(hf)
            bad = [x for x in r if x[1] != 'unsat']
            res['obls'] = [dict(name=o.name, line=o.line, kind=o.kind, status=st, backend=be, s=round(s, 3)) for o, st, be, s, mdl in r]
            res['loops'] = [[q, l, inv] for q, l, inv in ex.loopinfo]
            res['assumed'] = sorted(ex.assumed)
            # vacuity: some path must reach its end under satisfiable premises
            live = 0
            for o in outs:
                rr, _ = vc.z3check(list(ex.axioms) + ex.lit_axioms(), [f for _, f in o.st.pc], z3.BoolVal(False), 1.5)
                if rr != 'unsat':
                    live += 1
                    break
            nontriv = len([o for o in ex.obls if o.goal is not None])
            if not res['obls']:
                res['status'], res['reason'] = 'empty', 'no obligations were generated'
            elif not bad:
                # a body that only ever loops or throws has no completed path; its obligations still count
                res['status'] = 'proved' if (live or not outs) else 'vacuous'
                if res['status'] == 'vacuous':
                    res['reason'] = 'no path completes under satisfiable premises'
            else:
                res['status'] = 'failed'
                res['failed'] = [dict(name=o.name, line=o.line, status=st, model=str(mdl)[:1500] if mdl is not None else None) for o, st, be, s, mdl in bad]
                res['definite'] = definite(attempt, ex, [o.name for o, *_ in bad])
        except Unsupported as e:
            res['status'], res['reason'] = 'unsupported', str(e)
        except RecursionError:
            res['status'], res['reason'] = 'unsupported', 'recursion'
        except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, z3.Z3Exception) as e:
            res['status'], res['reason'] = 'unsupported', 'annotation or engine does not fit the code: ' + repr(e)[:300]
            res['tb'] = traceback.format_exc()[-1500:]
        res['used'] = sorted(lib.USED)
        res['wall'] = round(time.time() - t0, 2)
        out.append(res)
    return out


def definite(attempt, ex0, names):
    """a counterexample that does not depend on loop invariants, abstraction or unfolded definitions"""
    import vc, z3, recfun
    from sorts import Unsupported
    strip = lambda n: re.sub(r'[@:]?\d+', '', n)
    want = {strip(n) for n in names}
    for k in (1, 2, 3):
        try:
            ex, _ = attempt({}, unroll=k, tl=20)
        except Exception:
            return None
        ax = list(ex.axioms) + ex.lit_axioms()
        t0 = time.time()
        for o in ex.obls:
            if o.goal is None or o.taint or o.kind in ('loop',):
                continue
            if time.time() - t0 > 25:
                break
            pcs = [f for _, f in o.pc]
            q = pcs + [o.goal]
            if any(has_uf(f) for f in q):
                continue
            r, m = vc.z3check(ax, pcs, o.goal, 2)
            if r == 'sat':
                return dict(name=o.name, line=o.line, unroll=k, model=str(m)[:3000])
    return None


def has_uf(f):
    import z3
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                return True
            st.extend(x.children())
    return False


def run_lemmas(mod):
    """lemma obligations of a module: statements proved from the specification functions alone"""
    import z3, world, contract, execu, vc, recfun
    R = contract.Registry()
    m = importlib.import_module(mod)
    if not hasattr(m, 'lemmas'):
        return []
    m.register(R)
    W = world.World(getattr(m, 'SRC', []))
    ex = execu.Exec(W, R)
    out = []
    for name, prem, goal in m.lemmas(ex):
        t0 = time.time()
        st, be = 'unsat', 'simplifier'
        for p, g in recfun.prep(goal):
            P = list(prem) + p
            st, be, _ = vc.one(list(ex.axioms) + ex.lit_axioms(), P + recfun.instances(P + [g]), g, 30)
            if st != 'unsat':
                break
        out.append(dict(name='lemma: ' + name, line=0, kind='lemma', status=st, backend=be, s=round(time.time() - t0, 3)))
    return [dict(contract='lemmas of ' + mod, fn='(specification level)', status='proved' if all(o['status'] == 'unsat' for o in out) else 'failed', obls=out, failed=[o for o in out if o['status'] != 'unsat'],
                 definite=None, assumed=[], used=[], loops=[], reason=None, wall=0)]


def one_task(task):
    sys.setrecursionlimit(20000)
    try:
        res = run_lemmas(task[1]) if task[0] == 'lemmas' else run_target(task[1], task[2], task[3], task[4])
    except tu.ExtractError as e:
        res = [dict(contract=task[-1], fn=None, status='extract', reason=str(e)[:1500], obls=[], assumed=[], used=[], wall=0)]
    except BaseException as e:
        res = [dict(contract=task[-1], fn=None, status='error', reason=repr(e)[:500] + traceback.format_exc()[-1500:], obls=[], assumed=[], used=[], wall=0)]
    sys.stdout.write('\n@@RESULT ' + json.dumps(res) + '\n')
    sys.stdout.flush()
    os._exit(0)


STOP = {'at': None}      # a failing input is known: verifier processes still running at this time are stopped


def child(task):
    """run one task in a process of its own with a time limit"""
    end = START + (300 if os.environ.get('VERIF_TIER') != 'thorough' else 800)
    if STOP['at'] and time.time() > STOP['at']:
        return [dict(contract=task[-1], fn=None, status='stopped', reason='not run: a failing input was found on the real code', obls=[], assumed=[], used=[], wall=0)]
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--task', json.dumps(task)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    out, why = None, 'time budget exhausted'
    while True:
        try:
            out, _ = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if STOP['at'] and time.time() > STOP['at']:
                why = 'stopped: a failing input was found on the real code'
                break
            if time.time() > end:
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    if out is None:
        p.communicate()
        return [dict(contract=task[-1], fn=None, status='unsupported', reason=why, obls=[], assumed=[], used=[], wall=round(time.time() - START, 1))]
    for l in out.decode(errors='replace').splitlines()[::-1]:
        if l.startswith('@@RESULT '):
            return json.loads(l[9:])
    return [dict(contract=task[-1], fn=None, status='unsupported', reason='verifier process died (rc %s): %s' % (p.returncode, out.decode(errors='replace')[-300:]), obls=[], assumed=[], used=[], wall=0)]


# ---------------------------------------------------------------------------------------------------- native
def harness(prop, spec, tier, seed):
    """build and run the native harness; returns dict(status, fails, stats, log)"""
    if not spec.get('harness'):
        return None
    t0 = time.time()
    try:
        n = nat.build_lib()
    except nat.BuildError as e:
        return dict(status='builderror', log=str(e), fails=[], stats={}, wall=time.time() - t0)
    outs = []
    for h in spec['harness']:
        try:
            exe = nat.build_harness(h)
        except nat.BuildError as e:
            outs.append(dict(status='nofit', log=str(e), fails=[], stats={}))
            continue
        env = dict(os.environ)
        env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, LD_LIBRARY_PATH=':'.join([nat.OUT] + nat.LIBDIRS), OMP_NUM_THREADS='1')
        env['PROP'] = prop
        for k in list(env):
            if k.startswith(('FDB', 'ECKIT', 'METKIT')):
                del env[k]
        log = os.path.join(nat.OUT, h + '.' + prop + '.log')
        with open(log, 'wb') as fh:
            p = subprocess.Popen(['python3', os.path.join(VERIF, 'native', 'jail.py'), exe, prop], stdout=fh, stderr=subprocess.STDOUT, env=env, cwd='/tmp', start_new_session=True)
            try:
                rc = p.wait(timeout=400)
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        txt = open(log, errors='replace').read()
        fails = [l[5:] for l in txt.splitlines() if l.startswith('FAIL ')]
        stats = {}
        for l in txt.splitlines():
            if l.startswith('STATS '):
                for kv in l[6:].split():
                    k, v = kv.split('=')
                    stats[k] = stats.get(k, 0) + int(v)
        samples = [l[7:] for l in txt.splitlines() if l.startswith('SAMPLE ')][:5]
        st = 'ok'
        if fails:
            st = 'fail'
        elif rc != 0 or not stats:
            st = 'crash' if rc != 'timeout' else 'timeout'
        outs.append(dict(status=st, rc=rc, fails=fails, stats=stats, samples=samples, log=txt[-4000:], exe=exe))
    return dict(status='ran', rebuilt=n, outs=outs, fails=[f for o in outs for f in o['fails']], wall=round(time.time() - t0, 2))


def known_list(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def new_fails(H, known, kf=None):
    """failures of the native harness that are not listed as known findings (those are appended to kf)"""
    fails = []
    for f in H['fails']:
        m = re.match(r'id=(\S+)', f)
        hit = [k for k in known if m and k[0] == m.group(1)]
        if not hit:
            fails.append(f)
        elif kf is not None and hit[0] not in kf:
            kf.append(hit[0])
    for o in H['outs']:
        if o['status'] in ('crash', 'timeout'):
            fails.append('id=%s harness ended with %s: %s' % (o['status'], o['rc'], o['log'][-600:]))
    return fails


def main():
    t0 = time.time()
    import props
    prop = sys.argv[1]
    spec = props.PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    mkhints = '--hints' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    only = [a[2:] for a in sys.argv if a.startswith('-k')]
    tu.ensure_gen()
    # targets
    import contract, world
    tasks = []
    trusted = []
    for mod, pats in spec['contracts']:
        m = importlib.import_module(mod)
        R = contract.Registry()
        m.register(R)
        for s in getattr(m, 'SRC', []):
            try:
                tu.extract(os.path.join(tu.REPO, s))
            except tu.ExtractError as e:
                print('extraction failed: ' + str(e))
                sys.exit(2)
        for i, c in enumerate(R.list):
            if c.trusted:
                trusted.append('%s: contract assumed (%s)' % (c.name, c.trusted if isinstance(c.trusted, str) else 'external'))
                continue
            if pats is None or any(p in c.name for p in pats):
                if not only or any(o in c.name for o in only):
                    tasks.append(('t', mod, i, mkhints, 900 if mkhints else 150 if tier == 'quick' else 400, c.name))
        if hasattr(m, 'lemmas') and not only:
            tasks.append(('lemmas', mod, 'lemmas'))
    with ThreadPoolExecutor(8) as tp:
        def native():
            h = harness(prop, spec, tier, seed)
            if h and new_fails(h, known_list(prop)):
                STOP['at'] = max(time.time(), START + 40)
            return h

        hf = tp.submit(native) if not mkhints and not only else None
        results = [r for rs in tp.map(child, tasks) for r in rs]
        H = hf.result() if hf else None
    obls = [o for r in results for o in r['obls']]
    disch = [o for o in obls if o['status'] == 'unsat']
    proved = [r for r in results if r['status'] == 'proved']
    notp = [r for r in results if r['status'] != 'proved']
    errs = [r for r in results if r['status'] in ('error', 'extract')]
    backends = {}
    for o in obls:
        b = o['backend'] or 'none'
        backends.setdefault(b, [0, 0.0])
        backends[b][0] += 1
        backends[b][1] = round(backends[b][1] + o['s'], 3)
    if verbose or mkhints or only:
        for r in results:
            print('%-12s %-60s %3d obls %6.1fs %s' % (r['status'], (r['contract'] or '')[-60:], len(r['obls']), r['wall'], r.get('reason') or ''))
            for f in r.get('failed', []) or []:
                print('      failed: %s line %s (%s)' % (f['name'], f['line'], f['status']))
            if r.get('definite'):
                print('      definite: %s' % r['definite'])
            if r.get('tb') and verbose:
                print(r['tb'])
    for r in errs:
        print('ERROR', r['contract'], r['reason'])
    known = known_list(prop)
    viol = []
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    kf = []
    if H is not None:
        if H['status'] == 'builderror':
            print('native build failed: ' + H['log'])
            sys.exit(2)
        fails = new_fails(H, known, kf)
        for o in H['outs']:
            if o['status'] == 'nofit':
                print('note: the native harness does not compile against the current tree (interface changed); bounded stand-in skipped: ' + o['log'][-300:])
        if fails:
            p = os.path.join(EVID, 'replay', prop + '.txt')
            with open(p, 'w') as fh:
                fh.write('property %s: failing input(s) on the real code (native harness %s)\n' % (prop, ', '.join(spec['harness'])))
                fh.write('re-run: %s\n\n' % ' ; '.join('%s %s' % (o.get('exe', '?'), prop) for o in H['outs']))
                fh.write('\n'.join(fails[:50]) + '\n\nobligations that failed:\n')
                for r in notp:
                    fh.write('  %s %s: %s\n' % (r['contract'], r['status'], [f['name'] for f in r.get('failed', [])] or r.get('reason')))
            viol.append('VIOLATION property=%s replay=%s' % (prop, p))
    if not viol:
        for r in sorted(notp, key=lambda r: not r.get('definite')):
            if r['status'] == 'failed' and (r.get('definite') or not spec.get('definite_only')):
                p = os.path.join(EVID, 'replay', prop + '_obligation.txt')
                with open(p, 'w') as fh:
                    d = r.get('definite')
                    if d:
                        fh.write('property %s, function %s\nfailed obligation: %s (line %s)\nall failed: %s\n\nsolver output (counterexample, loops unrolled %d times exactly):\n%s\n' % (
                            prop, r['fn'], d['name'], d['line'], [f['name'] for f in r['failed']], d['unroll'], d['model']))
                    else:
                        fh.write('property %s, function %s\nobligations the verifier does not accept (no counterexample was found):\n' % (prop, r['fn']))
                        for f in r['failed']:
                            fh.write('  %s, line %s: solver answer %s\n%s\n' % (f['name'], f['line'], f['status'], f.get('model') or ''))
                viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
                break
    level = spec.get('level', 'proof')
    stats = {}
    for o in (H or {}).get('outs', []):
        for k, v in o['stats'].items():
            stats[k] = stats.get(k, 0) + v
    cov = dict(obligations=len(obls), discharged=len(disch), checker_cmd='python3-vt engine/check.py %s' % prop,
               trusted_base=sorted(set(['clang 18 front end (AST)', 'tools/extract (AST serialiser)', 'engine/*.py (symbolic executor, library models)', 'z3 5.3, z3 4.8.12, cvc5 1.1.2'] + trusted)),
               functions_under_contract=[dict(contract=r['contract'], function=r['fn'], status=r['status'], obligations=len(r['obls']),
                                              discharged=sum(1 for o in r['obls'] if o['status'] == 'unsat'), reason=r.get('reason'), wall_s=r['wall'],
                                              failed=[f['name'] for f in r.get('failed', []) or []]) for r in results],
               proved_functions=len(proved), not_proved=len(notp), by_backend={k: dict(obligations=v[0], solver_s=v[1]) for k, v in backends.items()},
               library_models_used=sorted({u for r in results for u in r['used']}),
               bounded_stand_in=dict(harness=spec.get('harness'), what=spec.get('bounded'), bounds=spec.get('bounds'), **({'rebuilt_objects': H.get('rebuilt'), 'wall_s': H.get('wall'), 'stats': stats, 'samples': [s for o in H.get('outs', []) for s in o.get('samples', [])][:8]} if H else {})))
    if level == 'other':
        cov['explanation'] = spec['explanation']
    if level == 'exploration':
        cov.update(evaluations=stats.get('evaluations', 0), distinct_nontrivial=stats.get('distinct', 0), rule=spec.get('bounds', ''), samples=[s for o in (H or {}).get('outs', []) for s in o.get('samples', [])][:8])
    ass = sorted({a for r in results for a in r['assumed']} | set(spec.get('assumptions', [])))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d/%d functions proved, harness %s, %.1fs' % (prop, len(disch), len(obls), len(proved), len(results), stats or '-', time.time() - t0))
    for r in notp:
        print('  not proved: %s (%s) %s' % (r['contract'], r['status'], r.get('reason') or [f['name'] for f in r.get('failed', [])]))
    for i, t in kf:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, i, t))
    if errs:
        sys.exit(2)
    for v in viol[:1]:
        print(v)
    sys.stdout.flush()
    sys.exit(1 if viol else 0)


if len(sys.argv) > 2 and sys.argv[1] == '--task':
    one_task(json.loads(sys.argv[2]))
else:
    main()
