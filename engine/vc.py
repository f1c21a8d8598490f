"""Discharge of proof obligations: z3 (several strategies), then cvc5."""
import z3, time, recfun
import subprocess, tempfile, os


def smt2(axioms, pcs, goal):
    s = z3.Solver()
    for a in axioms:
        s.add(a)
    for p in pcs:
        s.add(p)
    s.add(z3.Not(goal))
    return s.to_smt2()


def z3check(axioms, pcs, goal, timeout, opts=None):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('rlimit', int(timeout * 5000000))     # the time limit alone is not always noticed
    for k, v in (opts or {}).items():
        s.set(k, v)
    for a in axioms:
        s.add(a)
    for p in pcs:
        s.add(p)
    s.add(z3.Not(goal))
    r = s.check()
    m = None
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return str(r), m


def z3old(text, timeout, opts=(), binary='z3'):
    """the z3 4.8.12 binary: another arithmetic core than the library's"""
    try:
        r = subprocess.run([binary, '-T:%d' % max(1, int(timeout)), '-in'] + list(opts), input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 10)
        out = [l for l in r.stdout.decode(errors='replace').split() if l in ('sat', 'unsat', 'unknown')]
        return out[-1] if out and b'error' not in r.stdout else 'unknown'
    except Exception:
        return 'unknown'


def cvc5(text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write('(set-logic ALL)\n' + text)
        p = fh.name
    try:
        r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % int(timeout * 1000), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 10)
        out = r.stdout.decode(errors='replace').strip().splitlines()
        return out[0] if out and out[0] in ('sat', 'unsat', 'unknown') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)


def heavy(p):
    """links between integers and machine words: left out at first"""
    return z3.is_eq(p) and z3.is_app(p.arg(0)) and p.arg(0).decl().kind() == z3.Z3_OP_BV2INT


def one(axioms, pcs, goal, budget):
    t0 = time.time()
    left = lambda: budget - (time.time() - t0)
    light = [p for p in pcs if not heavy(p)]
    if len(light) < len(pcs):
        r, m = z3check(axioms, light, goal, min(4, budget))
        if r == 'unsat':
            return r, 'z3', m
    r, m = z3check(axioms, pcs, goal, min(1, budget))
    if r != 'unknown':
        return r, 'z3', m
    text = smt2(axioms, pcs, goal)
    for opts in ((), ('smt.mbqi=false', 'smt.random_seed=5')):
        if left() > 0:
            r = z3old(text, min(3, budget), opts)
            if r == 'unsat':
                return r, 'z3-4.8', None
    if left() > 0:
        r, m = z3check(axioms, pcs, goal, min(5, budget), {'smt.mbqi': False})
        if r == 'unsat':
            return r, 'z3', m
    if left() > 0:
        r = cvc5(text, min(6, budget))
        if r == 'unsat':
            return r, 'cvc5', None
    if left() > 0:
        r, m = z3check(axioms, pcs, goal, min(8, budget), {'random_seed': 7, 'smt.arith.nl': True})
        if r != 'unknown':
            return r, 'z3', m
    return 'unknown', None, None


def discharge(ex, budget=25, total=240):
    """[(obl, status, backend, seconds, model)]"""
    out = []
    ax = list(ex.axioms) + ex.lit_axioms()
    t00 = time.time()
    for o in ex.obls:
        if o.goal is None:
            out.append((o, 'unsat', 'simplifier', 0.0, None))
            continue
        pcs = [f for _, f in o.pc]
        t0 = time.time()
        st, be, model = 'unsat', 'simplifier', None
        for prem, g in recfun.prep(o.goal):
            b = budget if time.time() - t00 < total else 3
            P = pcs + prem
            r, bk, m = one(ax, P + recfun.instances(P + [g]), g, b)
            if bk:
                be = bk
            if r != 'unsat':
                st, model = r, m
                break
        out.append((o, st, be, time.time() - t0, model))
    return out
