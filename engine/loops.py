"""Loops: write-set inference, invariants found by Houdini over automatic and contract-supplied candidates, then one arbitrary
iteration verified against the invariant (or bounded unrolling when the executor runs in bounded mode)."""
import re
import z3, time
import execu as X
import recfun
from execu import (LV, PyTup, Iter, CppThrow, PathDone, RetEx, BreakEx, ContEx, And, Or, Not, Ite, is_term, consts_of, has_quant, select)
from sorts import INT, BOOL, STR, Unsupported, dt_of, mangle


import os
DBG = os.environ.get('DBG')


class Leaf:
    """one scalar component of the state the loop may change"""
    __slots__ = ('kind', 'key', 'path', 'sort', 'ty', 'role')

    def __init__(self, kind, key, path, sort, ty=None, role=''):
        self.kind, self.key, self.path, self.sort, self.ty, self.role = kind, key, path, sort, ty, role

    def id(self):
        return (self.kind, self.key, self.path)

    def __repr__(self):
        return '%s%s%s' % (self.kind, self.key, self.path)


def leafget(ex, st, lf):
    """current term of a leaf in a state"""
    if lf.kind == 'env':
        v = st.env[lf.key]
    elif lf.kind == 'heap':
        v = st.heap.get(lf.key)
        if v is None:
            v = z3.Const('heap0_' + mangle(str(lf.key)), lf.sort)
    else:
        v = st.ghost[lf.key]
    for s in lf.path:
        if s == 'pos':
            v = X.Exec.iter_pos(ex, v)
        elif isinstance(s, tuple) and s[0] == 'py':
            v = ex.rv(v.items[s[1]])
        else:
            v = dt_of(v).get(v, s)
    return v


def leafset(ex, st, lf, new):
    def rec(v, path):
        if not path:
            return new
        s = path[0]
        if s == 'pos':
            return Iter(v.kind, v.lv, pos=new, base=v.base, rev=v.rev)
        if isinstance(s, tuple) and s[0] == 'py':
            it = list(v.items)
            it[s[1]] = rec(it[s[1]], path[1:])
            return PyTup(it, v.tys)
        d = dt_of(v)
        return d.set(v, s, rec(d.get(v, s), path[1:]))
    if lf.kind == 'env':
        st.env[lf.key] = rec(st.env[lf.key], lf.path)
    elif lf.kind == 'heap':
        st.heap[lf.key] = new
    else:
        st.ghost[lf.key] = rec(st.ghost[lf.key], lf.path)


def diff(ex, a, b, kind, key, path, out, ty=None):
    """leaf components in which two values differ"""
    if ex.same(a, b):
        return
    if is_term(a) and is_term(b):
        if z3.simplify(a).eq(z3.simplify(b)):
            return
        d = dt_of(a)
        if d is not None:
            for i in range(len(d.fields)):
                x, y = d.get(a, i), d.get(b, i)
                fty = d.ftys[i] if d.ftys[i] is not None else None
                diff(ex, x, y, kind, key, path + (i,), out, fty if fty is not None else (None))
            return
        out.append(Leaf(kind, key, path, a.sort(), ty))
        return
    if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and a.rev == b.rev:
        if not ex.same(a.lv, b.lv) and not (a.kind != 'seq' and a.base is not None and b.base is not None):
            raise Unsupported('loop changes the container of an iterator')
        if a.base is not None and not a.base.eq(b.base):
            raise Unsupported('loop changes the base of an iterator')
        out.append(Leaf(kind, key, path + ('pos',), INT))
        return
    if isinstance(a, PyTup) and isinstance(b, PyTup) and len(a.items) == len(b.items):
        for i in range(len(a.items)):
            diff(ex, a.items[i], b.items[i], kind, key, path + (('py', i),), out)
        return
    raise Unsupported('loop changes a %s' % type(a).__name__)


def statediff(ex, s0, s1):
    out = []
    for k, v in s0.env.items():
        if k in s1.env:
            diff(ex, v, s1.env[k], 'env', k, (), out, s0.tys.get(k))
    for k in s1.heap:
        if k in s0.heap:
            diff(ex, s0.heap[k], s1.heap[k], 'heap', k, (), out)
        else:
            base = z3.Const('heap0_' + mangle(str(k)), s1.heap[k].sort())
            if not base.eq(s1.heap[k]):
                out.append(Leaf('heap', k, (), s1.heap[k].sort()))
    for k in s1.ghost:
        if k in s0.ghost:
            diff(ex, s0.ghost[k], s1.ghost[k], 'ghost', k, (), out)
        else:
            raise Unsupported('ghost %s first written in a loop' % (k,))
    return out


class Cand:
    __slots__ = ('name', 'fn', 'tag')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class L:
    """view of a loop for candidate generators: leaves, entry state, counters"""

    def __init__(self, ex, node, entry, leaves, pc0):
        self.ex, self.node, self.entry, self.leaves, self.pc0 = ex, node, entry, leaves, pc0
        self.head = None
        self.counters = []

    def this(self):
        from contract import V
        k = ('this', 'this')
        return V(self.ex, self.entry.env[k], self.entry.tys[k])

    def arg(self, i):
        from contract import V
        k = ('arg', i)
        t = self.entry.env[k]
        return V(self.ex, t, self.entry.tys[k]) if dt_of(t) is not None else t

    def this_at(self, st):
        """the object in state st"""
        from contract import V
        k = ('this', 'this')
        return V(self.ex, st.env[k], st.tys.get(k) or self.entry.tys[k])

    def arg_at(self, st, i):
        """an argument passed by reference, in state st"""
        from contract import V
        k = ('arg', i)
        t = st.env[k]
        return V(self.ex, t, st.tys.get(k) or self.entry.tys[k]) if dt_of(t) is not None else t

    def pointed(self, st, ref, ty):
        """the object ref points to in state st"""
        from contract import pointed
        sv, self.ex.st = self.ex.st, st
        try:
            return pointed(self.ex, ref, ty)
        finally:
            self.ex.st = sv

    def ints(self):
        return [lf for lf in self.leaves if lf.sort == INT]

    def e(self, lf):
        return leafget(self.ex, self.entry, lf)

    def c(self, st, lf):
        return leafget(self.ex, st, lf)


def prove(ex, pcs, goal, timeout=1500):
    """is goal implied by pcs (plus the axioms in use)?"""
    if z3.is_true(z3.simplify(goal)):
        return True
    t0 = time.time()
    ok = True
    for prem, g in recfun.prep(goal):
        ex.stats['houdini'] += 1
        r = z3.unknown
        P = pcs + prem
        P = P + recfun.instances(P + [g])
        qf = not has_quant(g)
        if qf:
            s = z3.Solver()
            s.set('timeout', timeout // 3)
            for p in P:
                if not has_quant(p):
                    s.add(p)
            s.add(z3.Not(g))
            r = s.check()
        if r != z3.unsat:
            s = z3.Solver()
            s.set('timeout', min(1500, timeout // 2 if qf else timeout))
            s.set('smt.mbqi', False)
            s.set('rlimit', 4000000)
            for a in ex.axioms:
                s.add(a)
            for a in ex.lit_axioms():
                s.add(a)
            for p in P:
                s.add(p)
            s.add(z3.Not(g))
            if timeout >= 3000:
                import vc
                # separate processes: the library does not always notice its own time limit
                text = s.to_smt2()
                r = z3.unsat if vc.z3old(text, 3) == 'unsat' or vc.z3old(text, 2, ('smt.mbqi=false',), 'z3-new') == 'unsat' else z3.unknown
            else:
                r = s.check()
        if r != z3.unsat:
            ok = False
            break
    ex.stats['houdini_s'] += time.time() - t0
    if DBG and time.time() - t0 > 0.5:
        print('   prove %s %.1fs %s' % (ok, time.time() - t0, str(goal)[:160].replace('\n', ' ')), flush=True)
    return ok


def havoc(ex, leaves, tag):
    for i, lf in enumerate(leaves):
        cur = leafget(ex, ex.st, lf)
        f = ex.fresh('%s_%d' % (tag, i), cur.sort())
        leafset(ex, ex.st, lf, f)
    # type invariants of the components changed
    done = set()
    for lf in leaves:
        if lf.kind != 'env' or lf.key in done:
            continue
        done.add(lf.key)
        v, ty = ex.st.env[lf.key], ex.st.tys.get(lf.key)
        if is_term(v) and ty is not None:
            ty = ty.strip()
            try:
                if ex.T.sort(ty) == v.sort():
                    sk = getattr(ex, 'skip_inv', ())
                    ex.no_class_inv = True      # locals under construction may break them: only structural facts
                    try:
                        fs = ex.ti(v, ty)
                    finally:
                        ex.no_class_inv = False
                    for x in fs:
                        ex.assume(x)
            except Unsupported:
                pass
        elif isinstance(v, Iter):
            ex.assume(X.Exec.iter_pos(ex, v) >= 0)


def run(ex, node, cond, body, inc, counter=None, bound=None):
    """counter: ('v', key) of a hidden index of a range-for; bound: its final value"""
    line = node.get('l') or ex.curline
    # a short loop with constant bounds is unrolled exactly
    n = const_trips(ex, counter, bound)
    if n is not None and n <= 6:
        return unrolled(ex, cond, body, inc, n + 1, exact=True)
    if ex.unroll is not None:
        return unrolled(ex, cond, body, inc, ex.unroll)
    ex.nnest += 1
    key = ('loop', ex.ctx, tuple(ex.trail[:ex.pos]), ex.nnest)
    entry = ex.st.copy()

    def step():
        """one iteration from the current state; raises for every exit"""
        c = cond()
        if not ex.choose(c):
            raise _Exit()
        try:
            body()
        except ContEx:
            pass
        if inc is not None:
            inc()

    def step_out(tag):
        def f():
            try:
                step()
            except _Exit:
                return 'exit'
            return 'next'
        return ex.explore(f, emit=False, tag=tag)

    hk = '%s#%012x' % (ex.frame.q.split('::')[-1], ex.intern(key))
    if key in ex._memo:
        leaves, kept = ex._memo[key]
    else:
        saved = (ex.ctx, ex.nfresh, ex.nnest, ex.nob, ex.st, ex.emit)
        ex.ctx, ex.nfresh, ex.nnest, ex.nob = ex.intern(key), 0, 0, 0
        ex.emit = False
        try:
            leaves = write_set(ex, entry, step_out)
            kept = infer(ex, node, entry, leaves, cond, step_out, counter, bound, hk)
        finally:
            (ex.ctx, ex.nfresh, ex.nnest, ex.nob, ex.st, ex.emit) = saved
        ex._memo[key] = (leaves, kept)
        ex.loopinfo.append((ex.frame.q, line, [c.name for c in kept]))
    # obligations: invariant holds on entry (already proved by Houdini; re-emitted as obligations so that the final
    # discharge is independent of the inference)
    for c in kept:
        ex.oblige('loop invariant "%s" holds on entry, %s' % (c.name, where(ex, line)), c.fn(ex.st), 'loop')
    # preservation obligations: one arbitrary iteration
    havoc(ex, leaves, 'L')
    for c in kept:
        ex.assume(c.fn(ex.st))
    head = ex.st.copy()
    c = cond()
    if not ex.choose(c):
        return
    try:
        body()
    except ContEx:
        pass
    except BreakEx:
        return
    if inc is not None:
        inc()
    for cd in kept:
        ex.oblige('loop invariant "%s" is preserved, %s' % (cd.name, where(ex, line)), cd.fn(ex.st), 'loop')
    raise PathDone()


def where(ex, line):
    return '%s:%s' % (ex.frame.q.split('::')[-1], line)


class _Exit(Exception):
    pass


def const_trips(ex, counter, bound):
    if counter is None or bound is None:
        return None
    b = z3.simplify(bound)
    v = ex.st.env[counter]
    if z3.is_int_value(b) and is_term(v) and z3.is_int_value(v):
        return b.as_long() - v.as_long()
    return None


def unrolled(ex, cond, body, inc, k, exact=False):
    for i in range(k + 1):
        c = cond()
        if not ex.choose(c):
            return
        if i == k:
            break
        try:
            body()
        except ContEx:
            pass
        except BreakEx:
            return
        if inc is not None:
            inc()
    if exact:
        raise Unsupported('loop unrolled past its bound')
    ex.bounded_hit = True
    raise PathDone()


def write_set(ex, entry, step_out):
    leaves = []
    ids = set()
    for rnd in range(12):
        saved = ex.st
        ex.st = entry.copy()
        havoc(ex, leaves, 'W%d' % rnd)
        base = ex.st.copy()
        try:
            outs = step_out('ws%d' % rnd)
        finally:
            ex.st = saved
        new = []
        for o in outs:
            if o.kind == 'normal' and o.val == 'next' or o.kind == 'continue':
                for lf in statediff(ex, base, o.st):
                    if lf.id() not in ids:
                        ids.add(lf.id())
                        new.append(lf)
        if not new:
            return leaves
        leaves = leaves + new
    raise Unsupported('loop write set does not stabilise')


# ------------------------------------------------------------------------------------------------ candidates
def tagged(cands, leaves):
    """names of the candidates that survive renumbering of the variables"""
    num = {}
    for lf in leaves:
        b = nm(lf).split('.')[0]
        num.setdefault(b, 'V%d' % len(num))
    cnt = {}
    for c in cands:
        t = re.sub(r'\bv\d+', lambda m: num.get(m.group(0), 'v?'), c.name)
        cnt[t] = cnt.get(t, 0) + 1
        c.tag = '%s~%d' % (t, cnt[t])


def infer(ex, node, entry, leaves, cond, step_out, counter, bound, hk=''):
    lp = L(ex, node, entry, leaves, list(entry.pc))
    cands = []
    saved = ex.st
    # condition-derived and body-derived candidates need a symbolic head
    ex.st = entry.copy()
    havoc(ex, leaves, 'H')
    head = ex.st.copy()
    Lh = len(head.pc)
    try:
        outs = step_out('probe')
    finally:
        ex.st = saved
    lp.head = head
    nxt0 = [o for o in outs if o.kind == 'normal' and o.val == 'next' or o.kind == 'continue']
    lp.delta = {}
    for lf in leaves:
        if lf.sort == INT:
            ds = []
            for o in nxt0:
                d = z3.simplify(leafget(ex, o.st, lf) - leafget(ex, head, lf))
                ds.append(d.as_long() if z3.is_int_value(d) else None)
            lp.delta[lf.id()] = ds
    cands += auto1(ex, lp, counter, bound)
    cands += from_cond(ex, lp, head, cond)
    cands += from_body(ex, lp, head, Lh, outs, counter)
    for t in ex.tmpl:
        try:
            cands += [Cand('contract:' + n, f) for n, f in t(lp) or []]
        except Unsupported:
            pass
    # drop duplicates
    seen, uniq = set(), []
    for c in cands:
        try:
            f = c.fn(head)
        except (Unsupported, z3.Z3Exception, KeyError):
            continue
        s = f.sexpr()
        if s in seen or z3.is_true(z3.simplify(f)):
            continue
        seen.add(s)
        uniq.append(c)
    cands = uniq
    tagged(cands, leaves)
    hint = ex.hints.get(hk)
    if hint is not None:
        by = {c.tag: c for c in cands}
        if all(t in by for t in hint):
            ex.stats['hinted'] = ex.stats.get('hinted', 0) + 1
            return [by[t] for t in hint]
    kept = infer1(ex, lp, entry, leaves, step_out, cands, saved)
    ex.newhints[hk] = [c.tag for c in kept]
    return kept


def infer1(ex, lp, entry, leaves, step_out, cands, saved):
    pcs = [f for _, f in entry.pc]
    kept = [c for c in cands if prove(ex, pcs, c.fn(entry), 1500 if c.name.startswith('contract') else 800)]
    # Houdini
    for rnd in range(10):
        ex.st = entry.copy()
        havoc(ex, leaves, 'I%d' % rnd)
        for c in kept:
            ex.assume(c.fn(ex.st))
        try:
            outs = step_out('inv%d' % rnd)
        finally:
            ex.st = saved
        nxt = [o for o in outs if o.kind == 'normal' and o.val == 'next' or o.kind == 'continue']
        bad = set()
        for o in nxt:
            pcs = [f for _, f in o.st.pc]
            for i, c in enumerate(kept):
                if i in bad:
                    continue
                if ex.deadline and time.time() > ex.deadline:
                    raise Unsupported('time budget exhausted')
                if not prove(ex, pcs, c.fn(o.st), 4000 if c.name.startswith('contract') else 800):
                    bad.add(i)
        if not bad:
            return kept
        kept = [c for i, c in enumerate(kept) if i not in bad]
    return []


def auto1(ex, lp, counter, bound):
    out = []
    ints = [lf for lf in lp.leaves if lf.sort == INT]
    # sequence lengths are leaves with path ending in 0 under a Seq datatype
    D = lp.delta
    for lf in ints:
        v0 = lp.e(lf)
        ds = D[lf.id()]
        if all(d is None or d >= 0 for d in ds):
            out.append(Cand('%s >= entry' % nm(lf), lambda st, lf=lf, v0=v0: lp.c(st, lf) >= v0))
        if all(d is None or d <= 0 for d in ds):
            out.append(Cand('%s <= entry' % nm(lf), lambda st, lf=lf, v0=v0: lp.c(st, lf) <= v0))
        if not all(d is not None and d >= 0 for d in ds) or not z3.is_int_value(v0):
            out.append(Cand('%s >= 0' % nm(lf), lambda st, lf=lf: lp.c(st, lf) >= 0))
    # step relations between counters
    for i, a in enumerate(ints):
        for b in ints[i + 1:]:
            a0, b0 = lp.e(a), lp.e(b)
            pairs = list(zip(D[a.id()], D[b.id()]))
            if any(x is None or y is None for x, y in pairs):
                continue
            if all(x == y for x, y in pairs):
                out.append(Cand('%s - %s constant' % (nm(a), nm(b)), lambda st, a=a, b=b, a0=a0, b0=b0: lp.c(st, a) - a0 == lp.c(st, b) - b0))
            elif all(x == -y for x, y in pairs):
                out.append(Cand('%s + %s constant' % (nm(a), nm(b)), lambda st, a=a, b=b, a0=a0, b0=b0: lp.c(st, a) - a0 == b0 - lp.c(st, b)))
            elif all(x <= y for x, y in pairs):
                out.append(Cand('%s steps <= %s steps' % (nm(a), nm(b)), lambda st, a=a, b=b, a0=a0, b0=b0: lp.c(st, a) - a0 <= lp.c(st, b) - b0))
            elif all(x >= y for x, y in pairs):
                out.append(Cand('%s steps <= %s steps' % (nm(b), nm(a)), lambda st, a=b, b=a, a0=b0, b0=a0: lp.c(st, a) - a0 <= lp.c(st, b) - b0))
    if bound is not None:
        out.append(Cand('index <= bound', lambda st: st.env[counter] <= bound))
    for lf in lp.leaves:
        if lf.sort == BOOL:
            v0 = lp.e(lf)
            out.append(Cand('%s only set' % nm(lf), lambda st, lf=lf, v0=v0: z3.Implies(v0, lp.c(st, lf))))
            out.append(Cand('%s only cleared' % nm(lf), lambda st, lf=lf, v0=v0: z3.Implies(lp.c(st, lf), v0)))
        elif lf.sort.kind() == z3.Z3_ARRAY_SORT:
            a0 = lp.e(lf)
            dom, rng = lf.sort.domain(), lf.sort.range()
            parent = Leaf(lf.kind, lf.key, lf.path[:-1], None) if lf.path else None
            if dom == INT and parent is not None:
                n0 = dt_of(leafget(ex, lp.entry, parent)).get(leafget(ex, lp.entry, parent), 0)
                j = z3.Int('pj')
                out.append(Cand('%s prefix kept' % nm(lf), lambda st, lf=lf, a0=a0, n0=n0, j=j: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n0), z3.Select(lp.c(st, lf), j) == z3.Select(a0, j)), patterns=[z3.Select(lp.c(st, lf), j)] if lp.c(st, lf).num_args() == 0 else [])))
            elif dom == INT and lf.kind == 'heap':
                # objects that existed before the loop and were not written
                j = z3.Int('hj')
                al = lp.entry.ghost.get('alloc', z3.Const('alloc0', INT))
                out.append(Cand('%s old objects kept' % nm(lf), lambda st, lf=lf, a0=a0, j=j, al=al: z3.ForAll([j], z3.Implies(j <= al, z3.Select(lp.c(st, lf), j) == z3.Select(a0, j)))))
            if rng == BOOL:
                k = z3.Const('ck', dom)
                out.append(Cand('%s grows' % nm(lf), lambda st, lf=lf, a0=a0, k=k: z3.ForAll([k], z3.Implies(z3.Select(a0, k), z3.Select(lp.c(st, lf), k)), patterns=_pat(z3.Select(lp.c(st, lf), k)))))
                out.append(Cand('%s shrinks' % nm(lf), lambda st, lf=lf, a0=a0, k=k: z3.ForAll([k], z3.Implies(z3.Select(lp.c(st, lf), k), z3.Select(a0, k)), patterns=_pat(z3.Select(lp.c(st, lf), k)))))
            elif parent is not None and dom != INT:
                # map values: keys present at entry keep their value
                h0 = dt_of(leafget(ex, lp.entry, parent)).get(leafget(ex, lp.entry, parent), 0)
                k = z3.Const('ck', dom)
                out.append(Cand('%s kept' % nm(lf), lambda st, lf=lf, a0=a0, h0=h0, k=k: z3.ForAll([k], z3.Implies(z3.Select(h0, k), z3.Select(lp.c(st, lf), k) == z3.Select(a0, k)), patterns=_pat(z3.Select(lp.c(st, lf), k)))))
    return out


def _pat(t):
    if t.num_args() and not has_quant(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).num_args() == 0:
        return [t]
    return []


def nm(lf):
    k = lf.key
    if isinstance(k, tuple):
        k = k[-1] if not isinstance(k[-1], int) else 'v%s' % (k[-1],)
    return '%s%s' % (k, ''.join('.%s' % (p,) for p in lf.path))


def from_cond(ex, lp, head, cond):
    """bounds suggested by the loop condition"""
    saved = ex.st
    ex.st = head.copy()
    out = []
    try:
        try:
            c = None

            def f():
                return cond()
            os_ = ex.explore(f, emit=False, tag='cond')
            if len(os_) == 1 and is_term(os_[0].val):
                c = os_[0].val
            vals = [o.val for o in os_ if is_term(o.val)]
        finally:
            ex.st = saved
    except (Unsupported, PathDone):
        return []
    # leaf constants of the head, to be replaced by the values of another state
    consts = [(leafget(ex, head, lf), lf) for lf in lp.leaves]
    consts = [(t, lf) for t, lf in consts if is_term(t)]
    headset = set()
    for t, lf in consts:
        headset |= consts_of(t)

    def atoms(t, out):
        if z3.is_and(t) or z3.is_or(t) or z3.is_not(t):
            for x in t.children():
                atoms(x, out)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            for x in t.children():
                if x.sort() == BOOL:
                    atoms(x, out)
        elif z3.is_app(t) and t.num_args() == 2 and t.arg(0).sort() == INT and t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            out.append(t)
    at = []
    for v in vals:
        if v.sort() == BOOL:
            atoms(v, at)
    okc = consts_known(ex, head)
    for t in at:
        if has_quant(t) or not (consts_of(t) <= okc):
            continue
        a, b = t.arg(0), t.arg(1)
        for x, y in ((a, b), (b, a)):
            out.append(Cand('condition bound', lambda st, x=x, y=y: sub(ex, lp, head, st, x) <= sub(ex, lp, head, st, y)))
            out.append(Cand('condition bound + 1', lambda st, x=x, y=y: sub(ex, lp, head, st, x) <= sub(ex, lp, head, st, y) + 1))
    return out


def consts_known(ex, st):
    from lib import env_consts
    return env_consts(ex, st)


def sub(ex, lp, head, st, t):
    """t is over the head's leaf constants; evaluate it in another state"""
    pairs = []
    for lf in lp.leaves:
        h = leafget(ex, head, lf)
        if is_term(h) and h.num_args() == 0:
            pairs.append((h, leafget(ex, st, lf)))
    return z3.substitute(t, *pairs) if pairs else t


def from_body(ex, lp, head, Lh, outs, counter):
    """what one iteration does, generalised over the iterations done so far"""
    out = []
    nxt = [o for o in outs if o.kind == 'normal' and o.val == 'next' or o.kind == 'continue']
    if not nxt:
        return out
    # the counter: an int leaf that every iteration increases by exactly one
    cnts = []
    for lf in lp.leaves:
        if lf.sort != INT:
            continue
        h = leafget(ex, head, lf)
        ok = {1: True, -1: True}
        for o in nxt:
            n = z3.simplify(leafget(ex, o.st, lf) - h)
            d = n.as_long() if z3.is_int_value(n) else None
            for s in (1, -1):
                ok[s] = ok[s] and d == s
        if ok[1]:
            cnts.append((lf, 1))
        elif ok[-1]:
            cnts.append((lf, -1))
    lp.counters = cnts
    if not cnts:
        return out
    leafconst = {}
    for lf in lp.leaves:
        h = leafget(ex, head, lf)
        if is_term(h):
            for n in consts_of(h):
                leafconst[n] = lf
    # the first "+1" counter that is not a container length (or the hidden index)
    cnts.sort(key=lambda x: (0 if (counter is not None and x[0].key == counter) else 1 if x[0].path == () else 2 if 'pos' in x[0].path else 3))
    okc = consts_known(ex, head)
    for cl, step in cnts[:1]:
        out += history(ex, lp, head, Lh, nxt, cl, step, leafconst, okc)
    return out


def history(ex, lp, head, Lh, nxt, cl, step, leafconst, okc):
    out = []
    i = leafget(ex, head, cl)
    i0 = lp.e(cl)
    iname = i.decl().name() if i.num_args() == 0 else None
    if iname is None:
        return out
    changing = {n for n, lf in leafconst.items() if lf.id() != cl.id()}
    # other counters in lockstep are functions of i
    lock = []
    for lf2, s2 in lp.counters:
        if lf2.id() != cl.id():
            h2 = leafget(ex, head, lf2)
            if h2.num_args() == 0:
                lock.append((h2, lp.e(lf2) + s2 * step * (i - i0)))
    lockset = {h.decl().name() for h, _ in lock}
    ch2 = changing - lockset

    def unlock(t):
        return z3.substitute(t, *lock) if lock else t

    j = z3.Int('hj%d' % ex.key('bv'))

    def dom(st):
        c = leafget(ex, st, cl)
        return z3.And(i0 <= j, j < c) if step == 1 else z3.And(c < j, j <= i0)

    def local_ok(t, strict=True):
        cs = consts_of(t)
        return not (cs & ch2) and all(n in okc or n == iname or not '!' in n for n in cs)
    # facts about completed iterations: conjuncts of the path conditions that depend on i and on unchanged state only
    gs = []
    for o in nxt:
        ok, all_ok = [], True
        for k, f in o.st.pc[Lh:]:
            if k != 'b':
                continue
            g = unlock(f)
            if local_ok(g):
                ok.append(g)
            else:
                all_ok = False
        gs.append(And(ok) if ok else z3.BoolVal(True))
    G = z3.simplify(Or(gs))
    if not z3.is_true(G) and iname in consts_of(G):
        for part in (G.children() if z3.is_and(G) else [G]):
            if iname not in consts_of(part):
                continue
            out.append(Cand('completed iterations passed the guard', lambda st, part=part: z3.ForAll([j], z3.Implies(dom(st), z3.substitute(part, (i, j))))))
    # element-wise effects
    for lf in lp.leaves:
        if lf.id() == cl.id():
            continue
        h = leafget(ex, head, lf)
        if not is_term(h):
            continue
        # merged new value over the paths
        vals = []
        for o in nxt:
            g = And([f for k, f in o.st.pc[Lh:] if k == 'b'])
            vals.append((g, leafget(ex, o.st, lf)))
        if lf.sort.kind() == z3.Z3_ARRAY_SORT:
            out += array_hist(ex, lp, head, lf, h, vals, cl, i, i0, step, j, dom, unlock, local_ok, iname)
        elif lf.sort == BOOL:
            # fold of a predicate: h' = h || P(i)  /  h && P(i)
            v = vals[-1][1]
            for g, x in vals[-2::-1]:
                v = Ite(g, x, v)
            vt, vf = z3.simplify(z3.substitute(v, (h, z3.BoolVal(True)))), z3.simplify(z3.substitute(v, (h, z3.BoolVal(False))))
            vt, vf = unlock(vt), unlock(vf)
            v0 = lp.e(lf)
            if z3.is_true(vt) and local_ok(vf):
                out.append(Cand('%s is any-of' % nm(lf), lambda st, vf=vf, lf=lf, v0=v0: lp.c(st, lf) == Or(v0, z3.Exists([j], z3.And(dom(st), z3.substitute(vf, (i, j)))))))
            if z3.is_false(vf) and local_ok(vt):
                out.append(Cand('%s is all-of' % nm(lf), lambda st, vt=vt, lf=lf, v0=v0: lp.c(st, lf) == And(v0, z3.ForAll([j], z3.Implies(dom(st), z3.substitute(vt, (i, j)))))))
    return out


def array_hist(ex, lp, head, lf, h, vals, cl, i, i0, step, j, dom, unlock, local_ok, iname):
    out = []
    domsort = lf.sort.domain()
    # decompose each path's new value into stores on the head constant
    paths = []
    for g, v in vals:
        st = []
        x = v
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
            st.append((x.arg(1), x.arg(2)))
            x = x.arg(0)
        if not x.eq(h):
            return out
        paths.append((g, st[::-1]))
    a0 = lp.e(lf)
    # case A: exactly one store per iteration at an index that is a function of i (or of the current length, in lockstep)
    if domsort == INT and all(len(s) == 1 for _, s in paths):
        idxs = [unlock(s[0][0]) for _, s in paths]
        idx = z3.simplify(idxs[0])
        if all(z3.simplify(x).eq(idx) for x in idxs) and local_ok(idx) and iname in consts_of(idx):
            v = paths[-1][1][0][1]
            for g, s in paths[-2::-1]:
                v = Ite(g, s[0][1], v)
            v = unlock(v)
            if local_ok(v):
                out.append(Cand('%s written per iteration' % nm(lf), lambda st, idx=idx, v=v, lf=lf: z3.ForAll([j], z3.Implies(dom(st), z3.Select(lp.c(st, lf), z3.substitute(idx, (i, j))) == z3.substitute(v, (i, j))))))
            m = z3.Int('fm')
            d = z3.simplify(idx - i)
            if consts_of(d) & {iname} == set():
                # frame: indices not yet reached keep their entry value
                out.append(Cand('%s untouched elsewhere' % nm(lf), lambda st, d=d, lf=lf: z3.ForAll([m], z3.Implies(Not(z3.And(m >= i0 + d, m < lp.c(st, cl) + d)) if step == 1 else Not(z3.And(m > lp.c(st, cl) + d, m <= i0 + d)), z3.Select(lp.c(st, lf), m) == z3.Select(a0, m)))))
    # case B: stores (key(i) -> value(i)) into a set / map
    if domsort != INT or lf.sort.range() == BOOL:
        for g, sts in paths:
            for kx, vx in sts:
                kk, vv = unlock(kx), unlock(vx)
                gg = unlock(And([p for p in ([g] if not z3.is_and(g) else g.children()) if local_ok(unlock(p))]))
                if local_ok(kk) and local_ok(vv) and local_ok(gg):
                    out.append(Cand('%s contains what was inserted' % nm(lf), lambda st, kk=kk, vv=vv, gg=gg, lf=lf: z3.ForAll([j], z3.Implies(z3.And(dom(st), z3.substitute(gg, (i, j))), z3.Select(lp.c(st, lf), z3.substitute(kk, (i, j))) == z3.substitute(vv, (i, j))))))
        if lf.sort.range() == BOOL and all(z3.is_true(z3.simplify(vx)) for _, s in paths for _, vx in s):
            k = z3.Const('ck', domsort)
            alts = []
            ok = True
            for g, sts in paths:
                for kx, vx in sts:
                    kk = unlock(kx)
                    gs = [p for p in ([g] if not z3.is_and(g) else g.children()) if local_ok(unlock(p))]
                    if not local_ok(kk):
                        ok = False
                    alts.append((kk, unlock(And(gs)) if gs else z3.BoolVal(True)))
            if ok and alts:
                out.append(Cand('%s only what was inserted' % nm(lf), lambda st, alts=alts, lf=lf: z3.ForAll([k], z3.Implies(z3.Select(lp.c(st, lf), k), z3.Or(z3.Select(a0, k), *[z3.Exists([j], z3.And(dom(st), z3.substitute(gg, (i, j)), k == z3.substitute(kk, (i, j)))) for kk, gg in alts])), patterns=_pat(z3.Select(lp.c(st, lf), k)))))
    return out


# ------------------------------------------------------------------------------------------------ range for / algorithms
def range_for(ex, node, rng, bindelem, body):
    t = ex.load(rng)
    import lib
    if isinstance(t, PyTup):
        raise Unsupported('range-for over a tuple')
    if not is_term(t):
        raise Unsupported('range-for over %s' % type(t).__name__)
    k = lib.cont_kind(t)
    rev = False
    if k is None:
        u = user_range(ex, rng)
        if u is not None:
            rng, rev = u
            t = ex.load(rng)
            k = lib.cont_kind(t)
    if k is None:
        if own_iterator(ex, node, rng, bindelem, body):
            return
        ty = rng.ty.strip() if rng.ty is not None else None
        raise Unsupported('range-for over %s' % (ty.s if ty is not None else t.sort()))
    ck = ('t', ex.key('rfi'), 'index')
    ex.st.env[ck] = z3.IntVal(0)
    ty = rng.ty.strip() if rng.ty is not None else ex.st.tys.get(rng.root[1]) if not rng.path else None
    if k == 'seq':
        n = lib.slen(t)
        et = ex.T.elem(ty)

        def elem():
            return rng.ext(('i', z3.simplify(n - 1 - ex.st.env[ck]) if rev else ex.st.env[ck]), et)
    else:
        has = dt_of(t).get(t, 0)
        card, nth, idxof = ex.order_axioms(has)
        n = card(has)

        def elem():
            key = nth(has, ex.st.env[ck])
            if k == 'set':
                return key
            return PyTup([key, rng.ext(('mv', key), ty.args[1])], list(ty.args))

    def bd():
        i = ex.st.env[ck]
        bindelem(elem())
        body()

    def inc():
        ex.st.env[ck] = z3.simplify(ex.st.env[ck] + 1)
    ex.assume(n >= 0)
    try:
        run(ex, node, lambda: ex.st.env[ck] < n, bd, inc, counter=ck, bound=n)
    finally:
        pass


def own_iterator(ex, node, rng, bindelem, body):
    """a class whose begin()/end() give an iterator class of the repository: the loop as the language defines it"""
    ty = rng.ty.strip() if rng.ty is not None else ex.st.tys.get(rng.root[1]) if not rng.path else None
    if ty is None:
        return False

    def fn(cls, name, n):
        fs = [f for f in ex.world.find(cls + '::' + name) if len(f.params) == n]
        return sorted(fs, key=lambda f: not f.f.const)[0].f if fs else None
    b, e = fn(ty.s, 'begin', 0), fn(ty.s, 'end', 0)
    if b is None or e is None:
        return False
    it = ex.rv(ex.call(b, rng, [], {}))
    en = ex.rv(ex.call(e, rng, [], {}))
    ity = b.rt.strip()
    ops = [fn(ity.s, o, n) for o, n in (('operator!=', 1), ('operator*', 0), ('operator++', 0))]
    if None in ops or not is_term(it) or not is_term(en):
        return False
    ne, star, inc = ops
    itl, enl = ex.newroot(it, ity, 'iter'), ex.newroot(en, ity, 'iterend')

    def bd():
        x = ex.call(star, itl, [], {})
        bindelem(x if isinstance(x, LV) else ex.newroot(ex.rv(x), star.rt.strip(), 'elem'))
        body()
    run(ex, node, lambda: ex.rv(ex.call(ne, itl, [enl], {})), bd, lambda: ex.call(inc, itl, [], {}))
    return True


def user_range(ex, rng):
    """the container a class with begin()/end() of its own iterates over completely"""
    import lib
    ty = rng.ty.strip() if rng.ty is not None else ex.st.tys.get(rng.root[1]) if not rng.path else None
    if ty is None:
        return None
    out = []
    for name in ('begin', 'end'):
        fn = None
        for cls in [ty.s] + list(ex.world.bases(ty.s)):
            fs = [f for f in ex.world.find(cls + '::' + name) if len(f.params) == 0 and f.body is not None]
            if not fs:
                for fid in list(ex.world.index()):
                    if fid.startswith(cls + '::' + name + '('):
                        ex.world.func(fid)
                fs = [f for f in ex.world.find(cls + '::' + name) if len(f.params) == 0 and f.body is not None]
            if fs:
                fn = sorted(fs, key=lambda f: not f.f.const)[0]
                break
        if fn is None:
            if __import__('os').environ.get('DBG'): print('user_range: no', name, 'of', ty.s)
            return None
        r = ex.rv(ex.inline(fn, rng, []))
        if not isinstance(r, Iter):
            return None
        out.append(r)
    b, e = out
    if __import__('os').environ.get('DBG'): print('user_range', b.kind, b.rev, b.lv, b.pos, b.isend, e.kind, e.rev, e.lv, e.pos, e.isend)
    if b.kind != e.kind or b.rev != e.rev or repr(b.lv) != repr(e.lv):
        return None
    n = lib.iter_pos(ex, e)
    full = lib.slen(ex.load(b.lv)) if b.kind == 'seq' else None
    if b.kind == 'seq':
        if not (z3.is_int_value(z3.simplify(b.pos)) and z3.simplify(b.pos).as_long() == 0 and z3.simplify(n - full).eq(z3.IntVal(0))):
            return None
    elif b.kind in ('set', 'map'):
        if not (b.pos is not None and z3.simplify(b.pos).eq(z3.IntVal(0)) and z3.is_true(e.isend)):
            return None
    else:
        return None
    return b.lv, b.rev


def over(ex, node, b, en, fn):
    """run fn(element lvalue) for b..en"""
    import lib
    n = lib.iter_pos(ex, en)
    ck = ('t', ex.key('alg'), 'index')
    ex.st.env[ck] = lib.iter_pos(ex, b)
    ex.assume(ex.st.env[ck] <= n)

    def bd():
        it = Iter(b.kind, b.lv, pos=ex.st.env[ck], base=b.base, rev=b.rev)
        fn(lib.iter_deref(ex, it))

    def inc():
        ex.st.env[ck] = z3.simplify(ex.st.env[ck] + 1)
    run(ex, node, lambda: ex.st.env[ck] < n, bd, inc, counter=ck, bound=n)


def algorithm(ex, f, args, e):
    import lib
    b, en = ex.rv(args[0]), ex.rv(args[1])
    if not isinstance(b, Iter):
        raise Unsupported('%s over %s' % (f.q, type(b).__name__))
    if f.q == 'std::accumulate':
        acc = ex.newroot(ex.rv(args[2]), f.rt.strip(), 'acc')
        op = ex.rv(args[3]) if len(args) > 3 else None

        def step(x):
            if op is None:
                v = ex.rv(x)
                a = ex.load(acc)
                if v.sort() == STR:
                    r = lib.str_cat(ex, a, v)
                else:
                    r = ex.arith('+', a, v, f.rt.strip())
            elif isinstance(op, X.Opq) or is_term(op):
                nmop = str(getattr(op, 'what', op))
                if 'multiplies' in nmop or 'multiplies' in f.id:
                    r = ex.arith('*', ex.load(acc), ex.rv(x), f.rt.strip())
                elif 'plus' in f.id:
                    r = ex.arith('+', ex.load(acc), ex.rv(x), f.rt.strip())
                else:
                    raise Unsupported('accumulate operator')
            else:
                r = ex.call_closure(op, None, [ex.rv(ex.load(acc)), x])
                T = f.rt.strip()
                if T.k == 'int':
                    rt = [X.finfo(op.tu, z['f']).rt for z in op.node['insts']] if isinstance(op, X.Closure) else []
                    r = ex.wrap(ex.rv(r), T, rt[0].strip() if rt and rt[0].k == 'int' else None)
            ex.store(acc, ex.rv(r))
        over(ex, e, b, en, step)
        return ex.load(acc)
    if f.q == 'std::for_each':
        c = ex.rv(args[2])
        over(ex, e, b, en, lambda x: ex.call_closure(c, None, [x]))
        return c
    if f.q in ('std::copy', 'std::copy_if', 'std::transform'):
        out = ex.rv(args[2])
        fn = ex.rv(args[3]) if len(args) > 3 else None
        if isinstance(out, PyTup) and z3.is_string_value(out.items[0]):
            lv = out.items[1]

            def push(v):
                if lib.cont_kind(ex.load(lv)) == 'seq':
                    lib.seq_push(ex, lv, v)
                else:
                    lib.assoc_insert(ex, lv, v)
        elif isinstance(out, Iter) and out.kind == 'seq':
            p0 = ex.newroot(out.pos, None, 'outpos')

            def push(v):
                p = ex.load(p0)
                t = ex.load(out.lv)
                ex.safe('output iterator inside its container', z3.And(p >= 0, p < lib.slen(t)))
                ex.store(LV(out.lv.root, out.lv.path, None), lib.mkseq(t, lib.slen(t), z3.Store(lib.sarr(t), p, v)))
                ex.store(p0, z3.simplify(p + 1))
        else:
            raise Unsupported('output iterator')

        def step(x):
            if f.q == 'std::copy':
                push(ex.term(x))
            elif f.q == 'std::transform':
                push(ex.term(ex.call_closure(fn, None, [x])))
            else:
                if ex.choose(ex.rv(ex.call_closure(fn, None, [x]))):
                    push(ex.term(x))
        over(ex, e, b, en, step)
        return out
    if f.q == 'std::count_if':
        c = ex.rv(args[2])
        cnt = ex.newroot(z3.IntVal(0), None, 'count')

        def step(x):
            if ex.choose(ex.rv(ex.call_closure(c, None, [x]))):
                ex.store(cnt, ex.load(cnt) + 1)
        over(ex, e, b, en, step)
        return ex.load(cnt)
    raise Unsupported(f.q)
