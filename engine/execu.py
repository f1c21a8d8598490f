"""Symbolic execution of the extracted bodies: one function at a time, callers against callee contracts, loops by
invariants (Houdini over automatic and contract-supplied candidates).  Produces proof obligations."""
import hashlib
import z3, time, sys
from cast import finfo, Ty, norm
from sorts import (INT, BOOL, REAL, STR, UNIT, U64, Unsupported, DT, dt_of, seq_dt, set_dt, map_dt, tup_dt, opt_dt, var_dt,
                   opaque, mangle, _isctor)

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------------------------------------ control flow signals
class CppThrow(Exception):
    def __init__(self, ty, val=None, what=''):
        self.ty, self.val, self.what = ty, val, what


class RetEx(Exception):
    def __init__(self, val):
        self.val = val


class BreakEx(Exception):
    pass


class ContEx(Exception):
    pass


class PathDone(Exception):
    """this path is over (infeasible, or verified inductively)"""
    pass


# ------------------------------------------------------------------------------------------------ values
class LV:
    __slots__ = ('root', 'path', 'ty')

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, tuple(path), ty

    def ext(self, step, ty):
        return LV(self.root, self.path + (step,), ty)

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join(str(p) for p in self.path))


class PyTup:
    def __init__(self, items, tys=None):
        self.items = list(items)
        self.tys = tys


class Iter:
    """iterator: position in a container lvalue; map/set iterators remember the key set they enumerate"""

    def __init__(self, kind, lv, pos=None, key=None, isend=None, base=None, rev=False):
        self.kind, self.lv, self.pos, self.key, self.isend, self.base, self.rev = kind, lv, pos, key, isend, base, rev


class Closure:
    def __init__(self, node, tu, caps, this):
        self.node, self.tu, self.caps, self.this = node, tu, caps, this


class FuncRef:
    def __init__(self, f):
        self.f = f


class Opq:
    """a value the verifier does not look into (streams, locks); never in a term"""

    def __init__(self, what):
        self.what = what


class State:
    __slots__ = ('env', 'tys', 'heap', 'ghost', 'pc', 'taint')

    def __init__(self):
        self.env, self.tys, self.heap, self.ghost, self.pc, self.taint = {}, {}, {}, {}, [], False

    def copy(self):
        s = State()
        s.env, s.tys, s.heap, s.ghost, s.pc, s.taint = dict(self.env), dict(self.tys), dict(self.heap), dict(self.ghost), list(self.pc), self.taint
        return s


class Frame:
    __slots__ = ('n', 'func', 'tu', 'this', 'caps', 'rt', 'depth', 'q')

    def __init__(self, n, func, tu, this, depth, q):
        self.n, self.func, self.tu, self.this, self.caps, self.rt, self.depth, self.q = n, func, tu, this, {}, None, depth, q


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'trail')

    def __init__(self, kind, st, val, trail=()):
        self.kind, self.st, self.val, self.trail = kind, st, val, trail


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'fn', 'kind', 'line', 'taint')

    def __init__(self, name, pc, goal, fn, kind, line, taint):
        self.name, self.pc, self.goal, self.fn, self.kind, self.line, self.taint = name, pc, goal, fn, kind, line, taint


def is_term(v):
    return isinstance(v, z3.ExprRef)


def And(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a) if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    return z3.BoolVal(True) if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a) if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    return z3.BoolVal(False) if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Ite(c, a, b):
    if z3.is_true(c) or (is_term(a) and is_term(b) and a.eq(b)):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def has_quant(t, memo={}):
    k = t.get_id()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def consts_of(t):
    """names of the uninterpreted constants in t"""
    out, stack, seen = set(), [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out


class Exec:
    def __init__(self, world, contracts, opts=None):
        self.world = world
        self.T = world.types
        self.contracts = contracts          # q -> list[Contract]
        self.opts = opts or {}
        self._intern = {}
        self.hints, self.newhints = {}, {}
        self._memo = {}
        self.oldheap = None
        self.st = State()
        self.frame = None
        self.trail, self.pos = [], 0
        self.ctx = 0
        self.nfresh = self.nnest = self.nob = 0
        self.emit = True
        self.obls = []
        self._obkeys = set()
        self.axioms = []                    # global axioms in use
        self._axkeys = set()
        self.escaped = {}                   # pointer term -> the lvalue it points to
        self.lits = {}
        self.assumed = {}                   # assumption text -> count
        self.unroll = None
        self.bounded_hit = False
        self.target = None
        self.inlined = set()
        self.used_contracts = set()
        self.loopinfo = []                  # per loop: kept invariants
        self.feas_cache = {}
        self.tmpl = []                      # loop templates of the contract being verified
        self.deadline = None
        self.stats = {'feas': 0, 'feas_s': 0.0, 'houdini': 0, 'houdini_s': 0.0}
        self.notes = []
        import lib
        self.lib = lib
        self.curline = 0
        self.safety = True

    # ------------------------------------------------------------------------------------------ small helpers
    def intern(self, key):
        v = self._intern.get(key)
        if v is None:
            v = self._intern[key] = int(hashlib.md5(repr(key).encode()).hexdigest()[:12], 16)
        return v

    def assume_note(self, txt):
        self.assumed[txt] = self.assumed.get(txt, 0) + 1

    def key(self, tag):
        self.nfresh += 1
        return self.intern((self.ctx, tuple(self.trail[:self.pos]), tag, self.nfresh))

    def fresh(self, base, sort):
        return z3.Const('%s!%d' % (mangle(base)[:24], self.key('f')), sort)

    def fresh_ty(self, base, ty):
        ty = ty.strip()
        t = self.fresh(base, self.T.sort(ty))
        for f in self.ti(t, ty):
            self.assume(f)
        return t

    def axiom(self, key, f):
        if key not in self._axkeys:
            self._axkeys.add(key)
            for x in (f() if callable(f) else [f]) if True else []:
                self.axioms.append(x)

    def assume(self, f):
        if z3.is_true(f):
            return
        self.st.pc.append(('a', f))

    def branch(self, f):
        if z3.is_true(f):
            return
        self.st.pc.append(('b', f))

    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = z3.Const('str:' + s[:40] + ('#%d' % len(self.lits)), STR)
            n = z3.Function('str_len', STR, INT)
            self.axioms.append(n(self.lits[s]) == len(s.encode('latin-1', 'replace')) if not s.startswith('hex:') else n(self.lits[s]) >= 0)
        return self.lits[s]

    def lit_axioms(self):
        v = list(self.lits.values())
        return [z3.Distinct(*v)] if len(v) > 1 else []

    # type invariants --------------------------------------------------------------------------
    def ti(self, t, ty, depth=0):
        """facts every value of this type satisfies (integer ranges, container sizes, declared class invariants)"""
        if depth > 4:
            return []
        ty = ty.strip()
        k = self.T.kind(ty)
        out = []
        if k == 'int':
            lo, hi = self.irange(ty)
            out += [t >= lo, t <= hi] if hi < U64 - 1 or lo < 0 else [t >= 0, t < U64]
        elif k == 'ptr':
            out += [t >= 0]
        elif k == 'seq':
            d = dt_of(t)
            n = d.get(t, 0)
            if ty.k == 'arr' and ty.n is not None:
                out.append(n == ty.n)
            elif ty.tname == 'std::array' and len(ty.args) > 1 and isinstance(ty.args[1], dict):
                out.append(n == int(ty.args[1]['v']))
            else:
                out += [n >= 0, n < 2 ** 31 - 1]
            et = self.T.elem(ty)
            if self.needs_ti(et):
                i = z3.Int('ti_i%d' % depth)
                el = z3.Select(d.get(t, 1), i)
                body = self.ti(el, et, depth + 1)
                if body:
                    out.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(*body)), patterns=[el]))
        elif k == 'map':
            d = dt_of(t)
            vt = ty.args[1]
            self.order_axioms(d.get(t, 0))
            if self.needs_ti(vt):
                kk = z3.Const('ti_k%d' % depth, d.get(t, 0).sort().domain())
                el = z3.Select(d.get(t, 1), kk)
                body = self.ti(el, vt, depth + 1)
                if body:
                    out.append(z3.ForAll([kk], z3.Implies(z3.Select(d.get(t, 0), kk), z3.And(*body)), patterns=[el]))
        elif k == 'set':
            self.order_axioms(dt_of(t).get(t, 0))
        elif k == 'tup':
            d = dt_of(t)
            for i, a in enumerate(ty.args):
                out += self.ti(d.get(t, i), a, depth)
        elif k == 'opt':
            d = dt_of(t)
            b = self.ti(d.get(t, 1), ty.args[0], depth)
            if b:
                out.append(z3.Implies(d.get(t, 0), z3.And(*b)))
        elif k == 'var':
            d = dt_of(t)
            out += [d.get(t, 0) >= 0, d.get(t, 0) < len(ty.args)]
            for i, a in enumerate(ty.args):
                out += self.ti(d.get(t, i + 1), a, depth)
        elif k == 'rec':
            d = self.T.rec(ty)
            for i, ft in enumerate(d.ftys):
                out += self.ti(d.get(t, i), ft, depth)
            out += self.class_inv(t, ty)
        return [x for x in out if not z3.is_true(x)]

    no_class_inv = False

    def class_inv(self, t, ty):
        out = []
        if self.no_class_inv:
            return out
        for n in [ty.s] + self.world.bases(ty.s):
            for inv in self.contracts.invs.get(n, []):
                if inv in getattr(self, 'skip_inv', ()):
                    continue
                out += [f for _, f in inv.fn(self.V(t, ty), self)]
        return out

    def needs_ti(self, ty, seen=None):
        k = self.T.kind(ty)
        if k in ('int', 'ptr', 'seq', 'opt', 'map', 'var'):
            return True
        if k == 'tup':
            return any(self.needs_ti(a) for a in ty.args)
        if k == 'rec':
            d = self.T.rec(ty)
            return any(self.needs_ti(f) for f in d.ftys) or any(self.contracts.invs.get(n) for n in [ty.s] + self.world.bases(ty.s))
        return False

    def irange(self, ty):
        if ty.k == 'enum':
            return -2 ** 31, 2 ** 32
        if ty.k == 'rec':   # eckit::Length / Offset / atomic
            if ty.tname == 'std::atomic':
                return self.irange(ty.args[0])
            return -2 ** 63, 2 ** 63 - 1
        if ty.signed:
            return -2 ** (ty.bits - 1), 2 ** (ty.bits - 1) - 1
        return 0, 2 ** ty.bits - 1

    def V(self, t, ty):
        from contract import V
        return V(self, t, ty)

    # container order --------------------------------------------------------------------------
    def order_fns(self, ks):
        n = ks.name()
        A = z3.ArraySort(ks, BOOL)
        return (z3.Function('card_' + n, A, INT), z3.Function('nth_' + n, A, INT, ks), z3.Function('idxof_' + n, A, ks, INT))

    def order_axioms(self, has):
        ks = has.sort().domain()
        card, nth, idxof = self.order_fns(ks)

        def ax():
            h = z3.Const('h_ax', z3.ArraySort(ks, BOOL))
            k = z3.Const('k_ax', ks)
            i = z3.Int('i_ax')
            return [
                z3.ForAll([h], card(h) >= 0, patterns=[card(h)]),
                z3.ForAll([h, i], z3.Implies(z3.And(i >= 0, i < card(h)), z3.And(z3.Select(h, nth(h, i)), idxof(h, nth(h, i)) == i)), patterns=[nth(h, i)]),
                z3.ForAll([h, k], z3.Implies(z3.Select(h, k), z3.And(idxof(h, k) >= 0, idxof(h, k) < card(h), nth(h, idxof(h, k)) == k)), patterns=[idxof(h, k)]),
                z3.ForAll([h, k], z3.Implies(z3.Select(h, k), z3.And(idxof(h, k) >= 0, idxof(h, k) < card(h), nth(h, idxof(h, k)) == k)), patterns=[z3.MultiPattern(z3.Select(h, k), card(h))]),
                card(z3.K(ks, z3.BoolVal(False))) == 0,
            ]
        self.axiom(('order', ks.name()), ax)
        return card, nth, idxof

    def card(self, has):
        return self.order_axioms(has)[0](has)

    # defaults ----------------------------------------------------------------------------------
    def dflt_sort(self, s):
        return z3.Const('dflt_' + mangle(s.name() if s.kind() != z3.Z3_ARRAY_SORT else s.sexpr())[:60], s)

    def default(self, ty):
        """value-initialised value"""
        ty = ty.strip()
        k = self.T.kind(ty)
        if k == 'int' or k == 'ptr':
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'float':
            return z3.RealVal(0)
        if k == 'str':
            return self.lit('')
        if k == 'seq':
            d = dt_of(self.T.sort(ty))
            n = 0
            if ty.k == 'arr' and ty.n is not None:
                n = ty.n
            elif ty.tname == 'std::array' and isinstance(ty.args[1], dict):
                n = int(ty.args[1]['v'])
            es = self.T.sort(self.T.elem(ty))
            return d.make(z3.IntVal(n), z3.K(INT, self.default(self.T.elem(ty)) if n else self.dflt_sort(es)))
        if k == 'set':
            s = self.T.sort(ty.args[0])
            return set_dt(s).make(z3.K(s, z3.BoolVal(False)))
        if k == 'map':
            s, v = self.T.sort(ty.args[0]), self.T.sort(ty.args[1])
            return map_dt(s, v).make(z3.K(s, z3.BoolVal(False)), z3.K(s, self.dflt_sort(v)))
        if k == 'tup':
            return tup_dt([self.T.sort(a) for a in ty.args]).make(*[self.default(a) for a in ty.args])
        if k == 'opt':
            s = self.T.sort(ty.args[0])
            return opt_dt(s).make(z3.BoolVal(False), self.dflt_sort(s))
        if k == 'var':
            ss = [self.T.sort(a) for a in ty.args]
            return var_dt(ss).make(z3.IntVal(0), self.default(ty.args[0]), *[self.dflt_sort(s) for s in ss[1:]])
        if k == 'rec':
            return self.default_rec(ty)
        return z3.Const('default_' + mangle(ty.s)[:60], self.T.sort(ty))

    def default_rec(self, ty):
        d = self.T.rec(ty)
        vals = []
        for lab, ft in zip(d.fields, d.ftys):
            cls, fn = lab.rsplit('::', 1)
            r = self.world.recs.get(cls) or self.world.rec(ty)
            init = None
            for n, t2, i2 in r.fields:
                if n == fn and r.name + '::' + n == lab:
                    init = (i2, r)
            if init and init[0] is not None:
                fr = self.frame
                self.frame = Frame(-1, None, init[1].tu, None, fr.depth if fr else 0, 'init')
                try:
                    v = self.term(self.rv(self.ev(init[0])), ft)
                finally:
                    self.frame = fr
                vals.append(v)
            else:
                vals.append(self.default(ft))
        return d.make(*vals)

    # ------------------------------------------------------------------------------------------ decisions
    def pcs(self):
        return [f for _, f in self.st.pc]

    def feasible(self, extra):
        t0 = time.time()
        self.stats['feas'] += 1
        s = z3.SolverFor('QF_UFDT') if False else z3.Solver()
        s.set('timeout', 150)
        s.set('smt.mbqi', False)
        for f in self.pcs():
            if not has_quant(f):
                s.add(f)
        for a in self.lit_axioms():
            s.add(a)
        s.add(extra)
        r = s.check()
        self.stats['feas_s'] += time.time() - t0
        return r != z3.unsat

    def choose(self, cond):
        """fork on a condition; returns the Python truth value taken on this path"""
        cond = z3.simplify(cond) if is_term(cond) else z3.BoolVal(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose_n([cond, Not(cond)]) == 0

    def choose_n(self, guards):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            self.branch(guards[d])
            return d
        feas = [i for i, g in enumerate(guards) if self.feasible(g)]
        if not feas:
            raise PathDone()
        for i in feas[1:][::-1]:
            self.work.append(self.trail[:self.pos] + [i])
        self.trail = self.trail[:self.pos] + [feas[0]]
        self.pos += 1
        if len(self.trail) > 400:
            raise Unsupported('path too long')
        self.branch(guards[feas[0]])
        return feas[0]

    # ------------------------------------------------------------------------------------------ exploration
    MAXPATHS = 400

    def explore(self, fn, emit=None, tag=''):
        """run fn on every path from the current state; returns outcomes (memoised for replays)"""
        self.nnest += 1
        key = ('ex', self.ctx, tuple(self.trail[:self.pos]), self.nnest, tag)
        if key in self._memo:
            return [Outcome(o.kind, o.st.copy(), o.val, o.trail) for o in self._memo[key]]
        saved = (self.st, self.frame, self.trail, self.pos, self.ctx, self.nfresh, self.nnest, self.nob, self.emit, getattr(self, 'work', None), self.curline)
        st0 = self.st
        outs = []
        self.work = [[]]
        self.ctx = self.intern(key)
        if emit is not None:
            self.emit = emit and self.emit
        try:
            n = 0
            while self.work:
                n += 1
                if n > self.MAXPATHS:
                    raise Unsupported('more than %d paths' % self.MAXPATHS)
                self.trail, self.pos = self.work.pop(), 0
                self.st = st0.copy()
                self.frame = saved[1]
                self.nfresh = self.nnest = self.nob = 0
                try:
                    v = fn()
                    outs.append(Outcome('normal', self.st, v, tuple(self.trail)))
                except RetEx as e:
                    outs.append(Outcome('return', self.st, e.val, tuple(self.trail)))
                except CppThrow as e:
                    outs.append(Outcome('throw', self.st, e, tuple(self.trail)))
                except BreakEx:
                    outs.append(Outcome('break', self.st, None, tuple(self.trail)))
                except ContEx:
                    outs.append(Outcome('continue', self.st, None, tuple(self.trail)))
                except PathDone:
                    pass
        finally:
            (self.st, self.frame, self.trail, self.pos, self.ctx, self.nfresh, self.nnest, self.nob, self.emit, self.work, self.curline) = saved
        self._memo[key] = outs
        return [Outcome(o.kind, o.st.copy(), o.val, o.trail) for o in outs]

    def guard_of(self, o, L):
        return And([f for k, f in o.st.pc[L:] if k == 'b'])

    def merged(self, fn, tag=''):
        """explore fn, merge the paths that complete in the same way, and continue on one group"""
        st0 = self.st
        L = len(st0.pc)
        outs = self.explore(fn, tag=tag)
        if not outs:
            raise PathDone()
        if len(outs) == 1:
            return self.adopt(outs[0])
        groups = {}
        for o in outs:
            k = o.kind if o.kind != 'throw' else ('throw', o.val.ty)
            groups.setdefault(k, []).append(o)
        final = []
        for k, os_ in groups.items():
            final += self.merge(st0, L, os_)
        if len(final) == 1:
            return self.adopt(final[0][1])
        i = self.choose_n_feas([g for g, _ in final])
        return self.adopt(final[i][1])

    def choose_n_feas(self, guards):
        return self.choose_n(guards)

    def adopt(self, o):
        self.st = o.st
        if o.kind == 'normal':
            return o.val
        if o.kind == 'return':
            raise RetEx(o.val)
        if o.kind == 'throw':
            raise o.val
        if o.kind == 'break':
            raise BreakEx()
        raise ContEx()

    def merge(self, st0, L, outs):
        """[(guard, Outcome)]: one merged outcome if possible, otherwise one per input"""
        if len(outs) == 1:
            return [(self.guard_of(outs[0], L), outs[0])]
        guards = [self.guard_of(o, L) for o in outs]
        try:
            st = st0.copy()
            st.taint = any(o.st.taint for o in outs)
            if self.opts.get('split') and any(not self.same(o.st.ghost.get(k, v), v) for o in outs[1:] for k, v in outs[0].st.ghost.items()):
                raise _NoMerge()

            def mg(vals):
                a = vals[0]
                if all(self.same(a, b) for b in vals[1:]):
                    return a
                if all(is_term(v) for v in vals):
                    if not all(v.sort() == a.sort() for v in vals):
                        raise _NoMerge()
                    r = vals[-1]
                    for g, v in list(zip(guards, vals))[-2::-1]:
                        r = Ite(g, v, r)
                    return r
                if all(isinstance(v, LV) for v in vals):
                    if outs[0].kind in ('normal', 'return') and vals is rvals and all(v.ty is not None and (v.ty.const or self.frame_rt_const) for v in vals):
                        # reference results read-only: merge by value
                        ts = []
                        for v, o in zip(vals, outs):
                            sv = self.st
                            self.st = o.st
                            ts.append(self.load(v))
                            self.st = sv
                        return mg(ts)
                    raise _NoMerge()
                if all(isinstance(v, Iter) for v in vals):
                    if all(v.kind == a.kind and v.rev == a.rev and self.same(v.lv, a.lv) and (v.base is None) == (a.base is None) for v in vals):
                        ps = [self.iter_pos(v) for v in vals]
                        bs = None
                        if a.base is not None:
                            if not all(v.base.eq(a.base) for v in vals):
                                raise _NoMerge()
                            bs = a.base
                        return Iter(a.kind, a.lv, pos=mg(ps), base=bs, rev=a.rev)
                    raise _NoMerge()
                if all(isinstance(v, PyTup) and len(v.items) == len(a.items) for v in vals):
                    return PyTup([mg([v.items[i] for v in vals]) for i in range(len(a.items))], a.tys)
                raise _NoMerge()

            rvals = [o.val for o in outs]
            self.frame_rt_const = True
            val = rvals[0] if outs[0].kind == 'throw' else mg(rvals) if rvals[0] is not None else None
            keys = set()
            for o in outs:
                keys |= set(o.st.env)
            for k in keys:
                if all(k in o.st.env for o in outs):
                    st.env[k] = mg([o.st.env[k] for o in outs])
                    for o in outs:
                        if k in o.st.tys:
                            st.tys[k] = o.st.tys[k]
                elif k in st0.env:
                    raise _NoMerge()
            for k in set().union(*[set(o.st.heap) for o in outs]):
                vs = []
                for o in outs:
                    vs.append(o.st.heap[k] if k in o.st.heap else self.heap0(k, outs))
                st.heap[k] = mg(vs)
            for k in set().union(*[set(o.st.ghost) for o in outs]):
                if not all(k in o.st.ghost for o in outs):
                    raise _NoMerge()
                st.ghost[k] = mg([o.st.ghost[k] for o in outs])
        except _NoMerge:
            return list(zip(guards, outs))
        # assumptions made on each path hold under its guard
        common = None
        for o in outs:
            s = {f.get_id() for k, f in o.st.pc[L:] if k == 'a'}
            common = s if common is None else common & s
        seen = set()
        for o, g in zip(outs, guards):
            for k, f in o.st.pc[L:]:
                if k != 'a':
                    continue
                if f.get_id() in common:
                    if f.get_id() not in seen:
                        seen.add(f.get_id())
                        st.pc.append(('a', f))
                else:
                    st.pc.append(('a', z3.Implies(g, f)))
        G = Or(guards)
        G = z3.simplify(G)
        if not z3.is_true(G):
            st.pc.append(('b', G))
        return [(G, Outcome(outs[0].kind, st, val, outs[0].trail))]

    def heap0(self, k, outs):
        for o in outs:
            if k in o.st.heap:
                s = o.st.heap[k].sort()
                return z3.Const('heap0_' + mangle(str(k)), s)
        raise _NoMerge()

    def same(self, a, b):
        if a is b:
            return True
        if is_term(a) and is_term(b):
            return a.eq(b)
        if isinstance(a, LV) and isinstance(b, LV):
            return a.root == b.root and len(a.path) == len(b.path) and all(p[0] == q[0] and len(p) == len(q) and all((x.eq(y) if is_term(x) and is_term(y) else x is y or (not is_term(x) and not is_term(y) and x == y)) for x, y in zip(p[1:], q[1:])) for p, q in zip(a.path, b.path))
        if isinstance(a, Iter) and isinstance(b, Iter):
            return a.kind == b.kind and a.rev == b.rev and self.same(a.lv, b.lv) and self.iter_pos(a).eq(self.iter_pos(b)) and ((a.base is None and b.base is None) or (a.base is not None and b.base is not None and a.base.eq(b.base)))
        if isinstance(a, PyTup) and isinstance(b, PyTup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Opq) and isinstance(b, Opq):
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (str, int, bool, type(None))):
            return a == b
        return False

    # ------------------------------------------------------------------------------------------ obligations
    def oblige(self, name, goal, kind='post'):
        goal = z3.simplify(goal) if is_term(goal) else z3.BoolVal(bool(goal))
        if z3.is_true(goal):
            if self.emit:
                k = (self.ctx, tuple(self.trail[:self.pos]), 'triv', name, self.nob)
                self.nob += 1
                if k not in self._obkeys:
                    self._obkeys.add(k)
                    if kind != 'safety':
                        self.obls.append(Obl(name, None, None, self.target, kind, self.curline, False))
            return
        if self.emit:
            self.nob += 1
            k = (self.ctx, tuple(self.trail[:self.pos]), self.nob)
            if k not in self._obkeys:
                self._obkeys.add(k)
                self.obls.append(Obl(name, list(self.st.pc), goal, self.target, kind, self.curline, self.st.taint))
        self.assume(goal)

    def safe(self, name, goal):
        """memory-safety style obligation; only kept when the contract asks for it, otherwise assumed and listed"""
        if not self.safety:
            self.assume_note('no undefined behaviour at: ' + name)
            self.assume(goal)
            return
        self.oblige(name + ' @%s:%d' % (self.frame.q.split('::')[-1] if self.frame else '?', self.curline), goal, 'safety')

    # ------------------------------------------------------------------------------------------ lvalues
    def newroot(self, val, ty, base='tmp'):
        k = ('t', self.key('root'), base)
        self.st.env[k] = val
        self.st.tys[k] = ty
        return LV(('v', k), (), ty)

    def heap(self, label, sort):
        if label not in self.st.heap:
            self.st.heap[label] = z3.Const('heap0_' + mangle(str(label)), z3.ArraySort(INT, sort))
        return self.st.heap[label]

    def load(self, lv):
        r = lv.root
        if r[0] == 'v':
            v = self.st.env[r[1]]
            path = lv.path
            ty = self.st.tys.get(r[1])
        elif r[0] == 'hf':
            v = z3.Select(self.heap(r[1], self.T.sort(r[2])), lv.path[0][1])
            path = lv.path[1:]
        elif r[0] == 'h':
            ref = lv.path[0][1]
            if len(lv.path) == 1 and self.T.kind(r[1]) == 'rec':
                d = self.T.rec(r[1])
                return d.make(*[z3.Select(self.heap(l, s), ref) for l, s in zip(d.fields, d.fsorts)])
            v = z3.Select(self.heap('obj:' + r[1].s, self.T.sort(r[1])), ref)
            path = lv.path[1:]
        else:
            raise Unsupported('root ' + str(r))
        for s in path:
            v = self.get_step(v, s)
        return v

    def get_step(self, v, s):
        if isinstance(v, PyTup):
            if s[0] == 't':
                x = v.items[s[1]]
                return self.rv(x)
            raise Unsupported('step %s on tuple' % (s,))
        if not is_term(v):
            raise Unsupported('step %s on %s' % (s[0], type(v).__name__))
        d = dt_of(v)
        if s[0] == 'f':
            if d is None or s[1] not in d.idx:
                raise Unsupported('field %s of %s' % (s[1], v.sort()))
            return d.get(v, d.idx[s[1]])
        if s[0] == 'i':
            a = d.get(v, 1)
            return select(a, s[1])
        if s[0] == 'mv':
            return select(d.get(v, 1), s[1])
        if s[0] == 't':
            return d.get(v, s[1])
        if s[0] == 'o':
            return d.get(v, 1)
        if s[0] == 'vr':
            return d.get(v, s[1] + 1)
        raise Unsupported('step ' + str(s))

    def set_path(self, v, path, new):
        if not path:
            return new
        s, rest = path[0], path[1:]
        if isinstance(v, PyTup):
            x = v.items[s[1]]
            if isinstance(x, LV):
                raise Unsupported('store through tuple of references')
            it = list(v.items)
            it[s[1]] = self.set_path(it[s[1]], rest, new)
            return PyTup(it, v.tys)
        d = dt_of(v)
        sub = self.set_path(self.get_step(v, s), rest, new)
        if isinstance(sub, PtrTo) and not isinstance(sub, self.lib.PtrTup):
            # the address of something that is not a heap object of its own: an unknown pointer that stands for it while this function runs
            a = self.fresh('address', INT)
            self.assume(a > 0)
            self.assume_note('a pointer into a container is read back only while it is valid')
            self.escaped[a.get_id()] = (a, sub)
            sub = a
        if not is_term(sub):
            raise Unsupported('storing a %s into a term' % type(sub).__name__)
        if s[0] == 'f':
            return d.set(v, d.idx[s[1]], sub)
        if s[0] in ('i', 'mv'):
            return d.set(v, 1, z3.Store(d.get(v, 1), s[1], sub))
        if s[0] == 't':
            return d.set(v, s[1], sub)
        if s[0] == 'o':
            return d.set(v, 1, sub)
        if s[0] == 'vr':
            return d.set(v, s[1] + 1, sub)
        raise Unsupported('store step ' + str(s))

    def store(self, lv, val):
        r = lv.root
        if lv.ty is not None and lv.ty.k != 'ref':
            val = self.coerce(val, lv.ty)
        if r[0] == 'v':
            k = r[1]
            if not lv.path:
                self.st.env[k] = val
            else:
                self.st.env[k] = self.set_path(self.st.env[k], lv.path, val)
        elif r[0] == 'hf':
            h = self.heap(r[1], self.T.sort(r[2]))
            ref = lv.path[0][1]
            self.st.heap[r[1]] = z3.Store(h, ref, self.set_path(z3.Select(h, ref), lv.path[1:], val))
        elif r[0] == 'h':
            ref = lv.path[0][1]
            if len(lv.path) == 1 and self.T.kind(r[1]) == 'rec':
                d = self.T.rec(r[1])
                vd = dt_of(val)
                for l, s in zip(d.fields, d.fsorts):
                    self.st.heap[l] = z3.Store(self.heap(l, s), ref, vd.get(val, vd.idx[l]))
                return
            lab = 'obj:' + r[1].s
            h = self.heap(lab, self.T.sort(r[1]))
            self.st.heap[lab] = z3.Store(h, ref, self.set_path(z3.Select(h, ref), lv.path[1:], val))
        else:
            raise Unsupported('store root')

    def coerce(self, val, ty):
        """Python-side composites become terms only when the target type can hold them"""
        if isinstance(val, PyTup) and self.T.kind(ty) == 'tup':
            if all(self.termable(x) for x in val.items) and not any(a.k == 'ref' for a in ty.args):
                return self.term(val, ty)
        if is_term(val):
            k = self.T.kind(ty)
            if k == 'rec' and dt_of(val) is not None and val.sort() != self.T.sort(ty):
                return self.slice(val, ty)
        return val

    def slice(self, val, ty):
        d, vd = self.T.rec(ty), dt_of(val)
        if vd is None or not all(l in vd.idx for l in d.fields):
            raise Unsupported('conversion of %s to %s' % (val.sort(), ty.s))
        return d.make(*[vd.get(val, vd.idx[l]) for l in d.fields])

    def termable(self, x):
        if isinstance(x, LV):
            x = self.load(x)
        if isinstance(x, PyTup):
            return all(self.termable(y) for y in x.items)
        return is_term(x)

    def rv(self, x):
        if isinstance(x, LV):
            return self.load(x)
        return x

    def aslv(self, x, ty=None):
        if isinstance(x, LV):
            return x
        return self.newroot(x, ty)

    def term(self, x, ty=None):
        x = self.rv(x)
        if is_term(x):
            if ty is not None:
                x = self.coerce(x, ty.strip())
            return x
        if isinstance(x, PyTup):
            tys = ty.strip().args if ty is not None and ty.strip().args else x.tys
            its = [self.term(i, tys[j] if tys else None) for j, i in enumerate(x.items)]
            return tup_dt([i.sort() for i in its]).make(*its)
        if isinstance(x, PtrTo) and not isinstance(x, self.lib.PtrTup):
            p = x.lv.path
            if len(p) >= 2 and p[-1][0] == 'i' and p[-2][0] == 'f' and is_term(p[-1][1]):
                # the address of an element of a vector that is a member: one for each index
                self.assume_note('a pointer into a container is read back only while it is valid')
                f, g = elem_address(p[-2][1])
                a = f(p[-1][1])
                self.assume(And(a > 0, g(a) == p[-1][1]))
                self.escaped[a.get_id()] = (a, x)
                return a
        raise Unsupported('value %s has no term' % type(x).__name__)

    def lookup(self, vid, ty):
        fr = self.frame
        if vid in fr.caps:
            b = fr.caps[vid]
        else:
            k = (fr.n, vid)
            if k not in self.st.env:
                raise Unsupported('unbound variable %s in %s' % (vid, fr.q))
            b = self.st.env[k]
            if not isinstance(b, LV):
                return LV(('v', k), (), self.st.tys.get(k, ty))
        return b

    def bind(self, vid, val, ty, name='v'):
        k = (self.frame.n, vid)
        self.st.env[k] = val
        self.st.tys[k] = ty

    def deref(self, ref, ty):
        return LV(('h', ty), (('ref', ref),), ty)

    def field(self, base, rec, name, ty):
        """lvalue (or value) of a record field"""
        lab = norm(rec) + '::' + name
        if isinstance(base, LV):
            if base.root[0] == 'h' and len(base.path) == 1 and self.T.kind(base.root[1]) == 'rec':
                return LV(('hf', lab, ty), base.path, ty)
            return base.ext(('f', lab), ty)
        return self.get_step(base, ('f', lab))

    # ------------------------------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression ' + e['k'] + ' ' + str(e.get('what', '')))
        if e.get('l'):
            self.curline = e['l']
        return m(e)

    def rve(self, e):
        return self.rv(self.ev(e))

    def ty(self, e):
        return self.frame.tu.ty(e['t'])

    def e_Int(self, e):
        return z3.IntVal(int(e['v']))

    def e_Bool(self, e):
        return z3.BoolVal(bool(e['v']))

    def e_Float(self, e):
        return z3.RealVal(repr(e['v']))

    def e_Str(self, e):
        return self.lit(e.get('v', ''))

    def e_Null(self, e):
        return z3.IntVal(0)

    def e_Zero(self, e):
        return self.default(self.ty(e))

    def e_This(self, e):
        if self.frame.this is None:
            raise Unsupported('this outside a method')
        return ThisPtr(self.frame.this)

    def e_Ref(self, e):
        k = e['kind']
        if k == 'enum':
            return z3.IntVal(int(e['v']))
        if k == 'func':
            return FuncRef(finfo(self.frame.tu, e['f']))
        if k in ('param', 'local', 'bind'):
            return self.lookup(e['id'], self.ty(e))
        if 'const' in e:
            c = int(e['const'])
            return z3.BoolVal(bool(c)) if self.ty(e).k == 'bool' else z3.IntVal(c)
        if k == 'static' and (self.frame.n, e['id']) in self.st.env:
            return self.lookup(e['id'], self.ty(e))
        return self.global_(e)

    def global_(self, e):
        q = e.get('q', e.get('name'))
        key = ('g', q)
        ty = self.ty(e).strip()
        if q in ('std::nullopt', 'std::cout', 'std::cerr', 'std::endl', 'std::ignore', 'std::string::npos') or q.startswith('std::'):
            if q.endswith('::npos'):
                return z3.IntVal(U64 - 1)
            return Opq(q)
        if key not in self.st.env:
            v = None
            if ty.const and e.get('ginit') is not None:
                try:
                    v = self.term(self.ev(e['ginit']), ty)
                except Unsupported:
                    v = None
            if v is None:
                srt = self.T.sort(ty)
                v = z3.Const('global_' + mangle(q), srt)
                for f in self.ti(v, ty):
                    self.assume(f)
                if not ty.const:
                    self.assume_note('global variable %s: arbitrary value' % q)
            self.st.env[key] = v
            self.st.tys[key] = ty
        return LV(('v', key), (), ty)

    def e_Member(self, e):
        if 'f' in e:
            raise Unsupported('bound method')
        base = self.ev(e['base'])
        ty = self.ty(e)
        arrow = e['arrow']
        if arrow and 't' in e['base']:
            bt = self.frame.tu.ty(e['base']['t'])
            bt = bt.to if bt.k == 'ref' else bt
            v = self.rv(base)
            if bt.k == 'ptr' and is_term(v) and v.sort() == INT:
                base, arrow = self.deref(v, bt.to.strip()), False
        return self.member(base, e.get('rec'), e['name'], ty, arrow)

    def member(self, base, rec, name, ty, arrow):
        if arrow:
            base = self.deref_val(base)
        if isinstance(base, PyTup):
            i = {'first': 0, 'second': 1}[name]
            x = base.items[i]
            return x
        if isinstance(base, (LV,)) or is_term(base):
            v = self.rv(base) if not isinstance(base, LV) else None
            if name in ('first', 'second') and (rec or '').startswith('std::pair'):
                i = 0 if name == 'first' else 1
                if isinstance(base, LV):
                    cur = self.load(base)
                    if isinstance(cur, PyTup):
                        it = cur.items[i]
                        if isinstance(it, LV):
                            return it
                    return base.ext(('t', i), ty)
                return self.get_step(base, ('t', i))
            if rec is None or ((self.world.recs.get(norm(rec)) is None or not self.world.recs[norm(rec)].repo) and not self.template_field(base, norm(rec) + '::' + name)):
                # field of an external record: uninterpreted
                b = self.term(base)
                fn = z3.Function('fld_%s_%s' % (mangle(rec or ''), name), b.sort(), self.T.sort(ty))
                return fn(b)
            return self.field(base, rec, name, ty)
        raise Unsupported('member %s of %s' % (name, type(base).__name__))

    def template_field(self, base, lab):
        """members of a class template are named without its arguments: is it a field of the object at hand?"""
        d = None
        if isinstance(base, LV):
            t = base.ty.strip() if base.ty is not None else None
            if t is not None and self.T.kind(t) == 'rec':
                d = self.T.rec(t)
        elif is_term(base):
            d = dt_of(base)
        return d is not None and lab in d.fields

    def deref_val(self, p):
        """*p for pointers, smart pointers, iterators"""
        if isinstance(p, ThisPtr):
            return p.lv
        ty = p.ty if isinstance(p, LV) else None
        v = self.rv(p)
        if isinstance(v, ThisPtr):
            return v.lv
        if isinstance(v, Iter):
            return self.lib.iter_deref(self, v)
        if isinstance(v, PtrTo):
            return v.lv
        if is_term(v) and v.sort() == INT:
            raise Unsupported('dereference of an untyped pointer')
        raise Unsupported('dereference of %s' % type(v).__name__)

    def deref_typed(self, p, pointee):
        if isinstance(p, ThisPtr):
            return p.lv
        v = self.rv(p)
        if isinstance(v, ThisPtr):
            return v.lv
        if isinstance(v, PtrTo):
            return v.lv
        if isinstance(v, Iter):
            return self.lib.iter_deref(self, v)
        if is_term(v) and v.sort() == INT:
            if v.get_id() in self.escaped:
                return self.escaped[v.get_id()][1].lv
            return self.deref(v, pointee)
        raise Unsupported('dereference of %s' % type(v).__name__)

    def e_Cast(self, e):
        ck = e['ck']
        ty = self.ty(e)
        if ck == 'ToVoid':
            self.ev(e['e'])
            return z3.Const('unit', UNIT)
        sub = self.ev(e['e'])
        if ck in ('NoOp', 'LValueToRValue', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived',
                  'BitCast', 'LValueBitCast', 'ArrayToPointerDecay', 'ConstructorConversion', 'BuiltinFnToFnPtr', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            if ck == 'BaseToDerived' and isinstance(sub, LV):
                return LV(sub.root, sub.path, ty) if not (sub.root[0] == 'h' and len(sub.path) == 1) else LV(('h', ty), sub.path, ty)
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase') and isinstance(sub, LV) and sub.root[0] == 'h' and len(sub.path) == 1 and ty.k == 'rec':
                return LV(('h', ty), sub.path, ty)
            return sub
        if ck == 'Dynamic':
            v = self.rv(sub)
            if ty.k == 'ptr':
                if isinstance(v, (ThisPtr, PtrTo)):
                    raise Unsupported('dynamic_cast of a value')
                f = z3.Function('dyncast_' + mangle(ty.to.s), INT, BOOL)
                return Ite(And(v != 0, f(v)), v, z3.IntVal(0))
            if isinstance(sub, LV) and sub.root[0] == 'h' and len(sub.path) == 1:
                f = z3.Function('dyncast_' + mangle(ty.s), INT, BOOL)
                if not self.choose(f(sub.path[0][1])):
                    raise CppThrow('std::bad_cast')
                return LV(('h', ty), sub.path, ty)
            raise Unsupported('dynamic_cast')
        v = self.rv(sub)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral', 'FloatingToBoolean'):
            ft = self.frame.tu.ty(e['e']['t']) if 't' in e['e'] else None
            if ft is None and e['e']['k'] == 'Cast':
                ft = self.frame.tu.ty(e['e']['t'])
            return self.conv(v, ft, ty)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            if ty.k == 'ptr' and self.T.sort(ty) == STR:
                return z3.Const('nullstr', STR)
            return z3.IntVal(0)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            if isinstance(v, (ThisPtr, PtrTo)):
                return z3.BoolVal(True)
            if v.sort() == STR:
                return v != z3.Const('nullstr', STR)
            return v != 0
        if ck in ('PointerToIntegral', 'IntegralToPointer', 'Dependent', 'VectorSplat'):
            raise Unsupported('cast ' + ck)
        raise Unsupported('cast ' + ck)

    def conv(self, v, ft, ty):
        if not is_term(v):
            raise Unsupported('numeric conversion of %s' % type(v).__name__)
        k = self.T.kind(ty)
        if v.sort() == BOOL:
            if k == 'bool':
                return v
            if k == 'int':
                return Ite(v, z3.IntVal(1), z3.IntVal(0))
            return Ite(v, z3.RealVal(1), z3.RealVal(0))
        if k == 'bool':
            return v != 0
        if v.sort() == INT:
            if k == 'float':
                return z3.ToReal(v)
            if k != 'int' or ty.k == 'enum':
                return v
            return self.wrap(v, ty, ft)
        if v.sort() == REAL:
            if k == 'float':
                return v
            self.assume_note('floating point treated as real numbers')
            return z3.ToInt(v)
        return v

    def wrap(self, v, ty, ft=None):
        if ty.k != 'int':
            return v
        lo, hi = self.irange(ty)
        if z3.is_int_value(v):
            n = v.as_long()
            if lo <= n <= hi:
                return v
            n %= 2 ** ty.bits
            if ty.signed and n > hi:
                n -= 2 ** ty.bits
            return z3.IntVal(n)
        if not ty.signed and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BV2INT:
            return z3.BV2Int(self.resize(v.arg(0), ty.bits)) if v.arg(0).size() > ty.bits else v
        if ft is not None and ft.k == 'int':
            flo, fhi = self.irange(ft)
            if lo <= flo and fhi <= hi:
                return v
        M = 2 ** ty.bits
        if not ty.signed and ft is not None and ft.k == 'int' and ft.bits <= ty.bits:
            return Ite(v >= 0, v, v + M)
        if ty.signed and ft is not None and ft.k == 'int' and ft.bits == ty.bits:
            return Ite(v <= hi, v, v - M)
        if ty.signed:
            return Ite(z3.And(v >= lo, v <= hi), v, (v - lo) % M + lo)
        return Ite(z3.And(v >= lo, v <= hi), v, v % M)

    def e_Un(self, e):
        op = e['op']
        if op == '&':
            x = self.ev(e['e'])
            if isinstance(x, FuncRef):
                return x
            x = self.aslv(x, self.frame.tu.ty(e['e']['t']) if 't' in e['e'] else None)
            if x.root[0] == 'h' and len(x.path) == 1:
                return x.path[0][1]
            if self.frame.this is not None and x is self.frame.this:
                return ThisPtr(x)
            return PtrTo(x)
        if op == '*':
            return self.deref_typed(self.ev(e['e']), self.ty(e))
        if op in ('++', '--'):
            lv = self.ev(e['e'])
            v = self.rv(lv)
            if isinstance(v, Iter):
                n = self.lib.iter_add(self, v, 1 if op == '++' else -1)
            else:
                n = self.arith('+' if op == '++' else '-', v, z3.IntVal(1) if v.sort() == INT else z3.RealVal(1), self.ty(e))
            self.store(lv, n)
            return v if e['post'] else lv
        v = self.rve(e['e'])
        if op == '!':
            return Not(v)
        if op == '-':
            ty = self.ty(e)
            if ty.k == 'int' and not ty.signed:
                return Ite(v == 0, z3.IntVal(0), 2 ** ty.bits - v)
            return z3.simplify(-v) if z3.is_int_value(v) else -v
        if op == '+':
            return v
        if op == '~':
            ty = self.ty(e)
            if ty.signed:
                return -v - 1
            return 2 ** ty.bits - 1 - v
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b, ty):
        """ty: type of the result"""
        if not (is_term(a) and is_term(b)):
            raise Unsupported('arithmetic on %s, %s' % (type(a).__name__, type(b).__name__))
        if a.sort() == REAL or b.sort() == REAL:
            if a.sort() == INT:
                a = z3.ToReal(a)
            if b.sort() == INT:
                b = z3.ToReal(b)
            self.assume_note('floating point treated as real numbers')
            if op == '/':
                return a / b
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
        if a.sort() != INT or b.sort() != INT:
            raise Unsupported('arithmetic on %s' % a.sort())
        uns = ty.k == 'int' and not ty.signed
        ca, cb = z3.is_int_value(a), z3.is_int_value(b)
        if op == '+':
            self.assume_note('integer + and * do not overflow (machine arithmetic treated as mathematical); unsigned subtraction wraps exactly')
            if ca and cb:
                return z3.simplify(a + b)
            # x + (2^64-1) is x - 1 in unsigned arithmetic
            if uns and cb and b.as_long() >= 2 ** (ty.bits - 1):
                return self.arith('-', a, z3.IntVal(2 ** ty.bits - b.as_long()), ty)
            if cb and b.as_long() == 0:
                return a
            return a + b
        if op == '-':
            if ca and cb:
                r = a.as_long() - b.as_long()
                if uns and r < 0:
                    r += 2 ** ty.bits
                return z3.IntVal(r)
            if uns:
                return Ite(a >= b, a - b, a - b + 2 ** ty.bits)
            return a - b
        if op == '*':
            self.assume_note('integer + and * do not overflow (machine arithmetic treated as mathematical); unsigned subtraction wraps exactly')
            if ca and cb:
                return z3.simplify(a * b)
            if ca and a.as_long() == 1:
                return b
            if cb and b.as_long() == 1:
                return a
            return a * b
        if op in ('/', '%'):
            self.safe('division by non-zero', b != 0)
            if uns or (ca and a.as_long() >= 0 and cb and b.as_long() > 0):
                return a / b if op == '/' else a % b
            q = Ite(a >= 0, Ite(b > 0, a / b, -(a / (-b))), Ite(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == '/' else a - b * q
        if op in ('&', '|', '^'):
            return self.bits(op, a, b, ty)
        if op == '<<':
            if cb:
                return a * (2 ** b.as_long())
            return self.bits(op, a, b, ty)
        if op == '>>':
            if cb:
                return a / (2 ** b.as_long())
            return self.bits(op, a, b, ty)
        raise Unsupported('operator ' + op)

    def bits(self, op, a, b, ty):
        n = min(ty.bits if ty.k == 'int' else 64, 64)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op]
            return z3.IntVal(r)
        if op == '&' and z3.is_int_value(b) and b.as_long() > 0 and (b.as_long() + 1) & b.as_long() == 0:
            return a % (b.as_long() + 1)
        x, y = self.tobv(a, n), self.tobv(b, n)
        r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: z3.LShR(x, y)}[op]()
        return z3.BV2Int(r)

    @staticmethod
    def resize(x, n):
        m = x.size()
        return x if m == n else z3.Extract(n - 1, 0, x) if m > n else z3.ZeroExt(n - m, x)

    def tobv(self, a, n):
        """the low n bits of an integer: bits of a bit vector where it came from one, else of an uninterpreted word that is equal modulo 2^64"""
        if z3.is_int_value(a):
            return z3.BitVecVal(a.as_long(), n)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_BV2INT:
            return self.resize(a.arg(0), n)
        w = z3.Function('word', INT, z3.BitVecSort(64))(a)
        self.assume(z3.BV2Int(w) == a % (2 ** 64))
        return self.resize(w, n)

    def e_Bin(self, e):
        op = e['op']
        if op == '&&' or op == '||':
            a = self.rve(e['lhs'])
            if z3.is_true(a) or z3.is_false(a):
                if (op == '&&') == z3.is_true(a):
                    return self.rve(e['r'])
                return a
            def f():
                t = self.choose(a if op == '&&' else Not(a))
                if t:
                    return self.rve(e['r'])
                return z3.BoolVal(op == '||')
            return self.merged(f)
        if op == ',':
            self.ev(e['lhs'])
            return self.ev(e['r'])
        if op == '=':
            r = self.rve(e['r'])
            lv = self.ev(e['lhs'])
            if not isinstance(lv, LV):
                raise Unsupported('assignment to rvalue')
            self.store(lv, r)
            return lv
        a = self.rve(e['lhs'])
        b = self.rve(e['r'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.cmp(op, a, b)
        if isinstance(a, Iter) or isinstance(b, Iter):
            return self.lib.iter_arith(self, op, a, b)
        return self.arith(op, a, b, self.ty(e))

    def cmp(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            r = self.lib.iter_eq(self, a, b) if op in ('==', '!=') else self.lib.iter_cmp(self, op, a, b)
            return Not(r) if op == '!=' else r
        if isinstance(a, (ThisPtr, PtrTo)) or isinstance(b, (ThisPtr, PtrTo)):
            if isinstance(a, (ThisPtr, PtrTo)) and isinstance(b, (ThisPtr, PtrTo)):
                r = z3.BoolVal(self.same(a.lv, b.lv))
                if not z3.is_true(r) and a.lv.root != b.lv.root and op in ('==', '!='):
                    pass
            else:
                o = b if isinstance(a, (ThisPtr, PtrTo)) else a
                if z3.is_int_value(o) and o.as_long() == 0:
                    r = z3.BoolVal(False)
                else:
                    r = self.fresh('ptreq', BOOL)
            return Not(r) if op == '!=' else r
        if isinstance(a, PyTup) or isinstance(b, PyTup):
            a, b = self.term(a), self.term(b)
        if not (is_term(a) and is_term(b)):
            raise Unsupported('comparison of %s' % type(a).__name__)
        if a.sort() == INT and b.sort() == REAL:
            a = z3.ToReal(a)
        if b.sort() == INT and a.sort() == REAL:
            b = z3.ToReal(b)
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if a.sort() == STR:
            return self.lib.str_cmp(self, op, a, b)
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()

    def e_CAssign(self, e):
        op = e['op'][:-1]
        lv = self.ev(e['lhs'])
        r = self.rve(e['r'])
        cur = self.rv(lv)
        if isinstance(cur, Iter):
            n = self.lib.iter_arith(self, op, cur, r)
            self.store(lv, n)
            return lv
        ct = self.frame.tu.ty(e['ct'])
        lt = self.ty(e)
        if cur.sort() == BOOL and op in ('&', '|'):
            rb = r if r.sort() == BOOL else r != 0
            n = And(cur, rb) if op == '&' else Or(cur, rb)
            self.store(lv, n)
            return lv
        if cur.sort() == BOOL:
            cur = self.conv(cur, None, ct)
        if cur.sort() == INT and self.T.kind(ct) == 'float':
            cur = z3.ToReal(cur)
        n = self.arith(op, cur, r, ct)
        if lt.k == 'int' and ct.k == 'int' and (lt.bits < ct.bits):
            n = self.wrap(n, lt, ct)
        if lt.k == 'int' and n.sort() == REAL:
            n = z3.ToInt(n)
        self.store(lv, n)
        return lv

    def e_Cond(self, e):
        c = self.rve(e['c'])
        if z3.is_true(c) or z3.is_false(c):
            return self.ev(e['a'] if z3.is_true(c) else e['b'])

        def f():
            if self.choose(c):
                x = self.ev(e['a'])
            else:
                x = self.ev(e['b'])
            ty = self.ty(e)
            if isinstance(x, LV) and ty.k != 'void':
                v = self.rv(x)
                return v if is_term(v) else x
            return x
        return self.merged(f)

    def e_Index(self, e):
        b = self.ev(e['b'])
        i = self.rve(e['i'])
        ty = self.ty(e)
        v = self.rv(b)
        if isinstance(v, Iter):
            return self.lib.iter_deref(self, self.lib.iter_arith(self, '+', v, i))
        if is_term(v) and dt_of(v) is not None and dt_of(v).fields[:2] == ['len', 'arr']:
            self.safe('array index in bounds', z3.And(i >= 0, i < dt_of(v).get(v, 0)))
            if isinstance(b, LV):
                return b.ext(('i', i), ty)
            return self.get_step(v, ('i', i))
        if is_term(v) and v.sort() == STR:
            return self.lib.str_char(self, v, i)
        if is_term(v) and v.sort() == INT:
            # raw pointer to an array: model as heap of sequences per element type
            lab = 'arr:' + ty.s
            h = self.heap(lab, z3.ArraySort(INT, self.T.sort(ty)))
            return LV(('ha', lab), (('ref', v), ('ai', i)), ty)
        raise Unsupported('subscript of %s' % type(v).__name__)

    def e_Lambda(self, e):
        caps = {}
        for c in e['caps']:
            if c.get('this'):
                continue
            if 'init' in c:
                caps[c['id']] = self.newroot(self.rve(c['init']), None, 'cap')
                continue
            b = self.lookup(c['id'], None)
            if c.get('byref'):
                caps[c['id']] = b
            else:
                v = self.rv(b)
                caps[c['id']] = self.newroot(v, b.ty, 'cap')
        return Closure(e, self.frame.tu, caps, self.frame.this)

    def e_New(self, e):
        ty = self.frame.tu.ty(e['at'])
        if 'n' in e:
            raise Unsupported('array new')
        v = None
        self.newctx = None
        if e.get('init') is not None:
            v = self.rve(e['init'])
        r = self.alloc(ty, v)
        for c in self.contracts.byq.get((ty.tname or '') + '::<new>', ()) if ty.k == 'rec' else ():
            # what the constructor says about the new object, by its identity
            from contract import Ctx, ex_view
            if self.newctx is None:
                raise Unsupported('new object of unknown arguments')
            x = Ctx(self)
            x.ref = r
            f, args = self.newctx
            x.args = [ex_view(self, a, pt) for a, pt in zip(args, f.pt)]
            for n, g in c.ensures(x):
                self.assume(g)
        return r

    def alloc(self, ty, v):
        r = self.fresh('new_' + ty.s, INT)
        al = self.st.ghost.get('alloc')
        if al is None:
            al = z3.Const('alloc0', INT)
        self.assume(r > al)
        self.assume(r > 0)
        self.st.ghost['alloc'] = r
        if v is not None and is_term(v):
            if self.T.kind(ty) == 'rec' and dt_of(v) is not None and v.sort() != self.T.sort(ty):
                vd = dt_of(v)
                for l, s in zip(vd.fields, vd.fsorts):
                    self.st.heap[l] = z3.Store(self.heap(l, s), r, vd.get(v, vd.idx[l]))
            else:
                self.store(self.deref(r, ty), v)
        f = z3.Function('dyntype', INT, INT)
        return r

    def e_Delete(self, e):
        v = self.rve(e['e'])
        ty = self.ty(e['e'])
        if ty is not None and ty.k == 'ref':
            ty = ty.to
        if is_term(v) and v.sort() == INT and ty is not None and ty.k == 'ptr' and ty.to.k == 'rec':
            for c in self.contracts.byq.get(ty.to.tname + '::<dtor>', ()):
                # the destructor's contract, applied through a pointer that is not null
                from contract import Ctx
                x = Ctx(self)
                x.ref = v
                for n, g in (c.requires(x) if c.requires else []):
                    self.oblige('deleting a %s: %s' % (ty.to.tname.split('::')[-1], n), Or(v == 0, g), 'pre')
                for n, g in (c.ensures(x) if c.ensures else []):
                    self.assume(g)
        return z3.Const('unit', UNIT)

    def e_InitList(self, e):
        ty = self.ty(e)
        return self.initlist(ty, [self.ev(x) for x in e['e']])

    def initlist(self, ty, vals):
        k = self.T.kind(ty)
        if k == 'seq':
            et = self.T.elem(ty)
            if ty.tname == 'std::array' and len(vals) == 1:
                v = self.rv(vals[0])
                if is_term(v) and v.sort() == self.T.sort(ty):
                    return v
            arr = z3.K(INT, self.dflt_sort(self.T.sort(et)))
            for i, x in enumerate(vals):
                arr = z3.Store(arr, i, self.term(x, et))
            return seq_dt(self.T.sort(et)).make(z3.IntVal(len(vals)), arr)
        if k == 'rec':
            d = self.T.rec(ty)
            r = self.world.rec(ty)
            nb = len(d.fields) - len(r.fields)
            if nb and len(vals) == len(r.fields) + len([b for b in r.bases]):
                raise Unsupported('aggregate with bases')
            out = []
            for i, ft in enumerate(d.ftys):
                out.append(self.term(vals[i], ft) if i < len(vals) else self.default(ft))
            return d.make(*out)
        if k == 'tup':
            return PyTup([self.rv(x) for x in vals], ty.args)
        if len(vals) == 1:
            return self.rv(vals[0])
        if len(vals) == 0:
            return self.default(ty)
        if k == 'opaque':
            f = self.uf('agg_' + ty.s, vals, ty)
            return f
        raise Unsupported('initialiser list for ' + ty.s)

    def e_StdInitList(self, e):
        v = self.rve(e['e'])
        return v

    def e_Throw(self, e):
        if 'e' not in e:
            raise CppThrow(getattr(self, 'handling', None) and self.handling[-1].ty or 'rethrow')
        ty = self.frame.tu.ty(e['e']['t']) if 't' in e['e'] else None
        # arguments of the exception are messages: not evaluated
        raise CppThrow(ty.s if ty is not None else '?', None)

    # calls -----------------------------------------------------------------------------------
    def e_Call(self, e):
        if 'f' not in e:
            c = self.rve(e['callee'])
            args = [self.ev(a) for a in e['args']]
            if isinstance(c, FuncRef):
                return self.call(c.f, None, args, e)
            if isinstance(c, Closure):
                return self.call_closure(c, None, args)
            raise Unsupported('indirect call')
        f = finfo(self.frame.tu, e['f'])
        if f.q in ('eckit::handle_assert', 'eckit::handle_panic'):
            raise CppThrow('eckit::AssertionFailed')
        if f.q in ('eckit::Assert', 'eckit::Panic', 'eckit::PanicNoLog'):
            c = self.rve(e['args'][0])
            if self.choose(c if c.sort() == BOOL else c != 0):
                raise CppThrow('eckit::AssertionFailed')
            return z3.Const('unit', UNIT)
        h = self.lib.lazy(f.q)
        if h is not None:
            return h(self, e, f)
        args = [self.ev(a) for a in e['args']]
        return self.call(f, None, args, e)

    def e_MCall(self, e):
        if 'f' not in e:
            raise Unsupported('member call through pointer')
        f = finfo(self.frame.tu, e['f'])
        obj = self.ev(e['obj'])
        ot = self.frame.tu.ty(e['ot'])
        if e.get('arrow'):
            if ot.k == 'ptr':
                obj = self.deref_typed(obj, ot.to)
            else:
                obj = self.deref_val(obj)
        h = self.lib.lazy(f.q)
        if h is not None:
            return h(self, e, f, obj)
        args = [self.ev(a) for a in e['args']]
        return self.call(f, obj, args, e, qual=e.get('qual', False))

    def e_OpCall(self, e):
        op = e['op']
        if 'f' not in e:
            raise Unsupported('operator call')
        f = finfo(self.frame.tu, e['f'])
        if op in ('<<', '>>') and f.pt:
            h = self.lib.stream_op(self, e, f, op)
            if h is not NotImplemented:
                return h
        args = [self.ev(a) for a in e['args']]
        if f.cls is not None and not f.static:
            if f.cls.startswith('lambda#'):
                c = self.rv(args[0])
                return self.call_closure(c, f, args[1:])
            return self.call(f, args[0], args[1:], e)
        return self.call(f, None, args, e)

    def e_Ctor(self, e):
        f = finfo(self.frame.tu, e['f'])
        ty = self.ty(e)
        if f.get('ctor') in ('copy', 'move') and len(e['args']) >= 1:
            k = self.T.kind(ty)
            if not (f.repo and not f.get('defaulted')) or k != 'rec':
                v = self.rve(e['args'][0])
                if isinstance(v, PyTup):
                    return PyTup([self.rv(x) for x in v.items], v.tys)
                if is_term(v) and k == 'rec':
                    return self.coerce(v, ty)
                return v
        args = [self.ev(a) for a in e['args']]
        return self.construct(f, ty, args, e)

    def construct(self, f, ty, args, e=None):
        k = self.T.kind(ty)
        h = self.lib.ctor(self, f, ty, k, args, e or {})
        if h is not NotImplemented:
            return h
        if k == 'rec' or (f.repo and k == 'opaque'):
            c = self.contracts.match(f)
            if c is not None and not self.is_target(f):
                return self.apply_contract(c, f, None, args, ctor_ty=ty)
            fn = self.world.func(f.id)
            if fn is None:
                if f.get('ctor') == 'default':
                    return self.default(ty)
                if e and e.get('inherited'):
                    raise Unsupported('inherited constructor')
                return self.unknown(f, None, args, ty)
            return self.inline_ctor(fn, ty, args)
        self.newctx = (f, args)
        c = self.contracts.match(f)
        if c is not None and c.trusted:
            return self.apply_contract(c, f, None, args, ctor_ty=ty)
        return self.unknown(f, None, args, ty)

    def is_target(self, f):
        return self.frame is not None and self.frame.depth == 0 and False

    def inline_ctor(self, fn, ty, args):
        if self.frame.depth > 14:
            raise Unsupported('inlining depth: ' + fn.q)
        self.inlined.add(fn.q)

        def run():
            d = self.T.rec(ty)
            this = self.newroot(None, ty, 'this')
            # unset fields start unspecified
            self.st.env[this.root[1]] = d.make(*[self.fresh('uninit_' + l.split('::')[-1], s) for l, s in zip(d.fields, d.fsorts)])
            self.ctor_body(fn, this, args)
            v = self.load(this)
            return v
        return self.merged(run, tag='ctor')

    def ctor_body(self, fn, this, args):
        outer = self.frame
        n = self.key('frame')
        self.frame = Frame(n, fn, fn.tu, this, outer.depth + 1 if outer else 0, fn.q)
        try:
            self.bind_params(fn.params, fn.f.pt, args, fn.tu)
            cls = this.ty
            deleg = False
            for i in fn.inits or []:
                if i.get('delegate'):
                    v = self.ev(i['e'])
                    self.store(this, self.rv(v))
                    deleg = True
                elif 'base' in i:
                    bt = fn.tu.ty(i['base'])
                    if self.T.kind(bt) != 'rec':
                        continue
                    self.init_base(this, bt, i['e'], fn)
                elif 'field' in i:
                    lab = self.field_label(fn.f.cls, i['field'])
                    ft = self.field_type(this.ty, lab)
                    v = self.rv(self.ev(i['e'])) if i['e'] is not None else self.default(ft)
                    v = self.coerce(v, ft) if is_term(v) else self.term(v, ft)
                    tv = self.set_path(self.st.env[this.root[1]], (('f', lab),), self.fit(v, ft)) if this.root[0] == 'v' and not this.path else None
                    if tv is None:
                        self.store(this.ext(('f', lab), ft), self.fit(v, ft))
                    else:
                        self.st.env[this.root[1]] = tv
            try:
                if fn.body is not None:
                    self.stmt(fn.body)
            except RetEx:
                pass
        finally:
            self.frame = outer

    def fit(self, v, ft):
        if not is_term(v):
            v = self.term(v, ft)
        s = self.T.sort(ft)
        if v.sort() != s:
            if v.sort() == INT and s == REAL:
                return z3.ToReal(v)
            if v.sort() == INT and s == BOOL:
                return v != 0
            if v.sort() == BOOL and s == INT:
                return Ite(v, z3.IntVal(1), z3.IntVal(0))
            if v.sort() == STR and s.name() == 'o_eckit_PathName':
                return z3.Function('spec_PathName', STR, s)(v)      # implicit conversion
            raise Unsupported('cannot store %s as %s' % (v.sort(), s))
        return v

    def init_base(self, this, bt, e, fn):
        d = self.T.rec(bt)
        v = self.rv(self.ev(e))
        if not is_term(v):
            return
        vd = dt_of(v)
        cur = self.load(this)
        cd = dt_of(cur)
        for l in d.fields:
            if l in cd.idx and vd is not None and l in vd.idx:
                cur = cd.set(cur, cd.idx[l], vd.get(v, vd.idx[l]))
        self.store(this, cur)

    def field_label(self, cls, name):
        return cls + '::' + name

    def field_type(self, ty, lab):
        d = self.T.rec(ty)
        return d.ftys[d.idx[lab]]

    def bind_params(self, params, pts, args, tu):
        for i, p in enumerate(params):
            pt = tu.ty(p['t'])
            if i >= len(args):
                raise Unsupported('missing argument')
            a = args[i]
            if pt.k == 'ref':
                if isinstance(a, LV):
                    self.bind(p['id'], a, pt.to)
                else:
                    if is_term(a) or isinstance(a, PyTup):
                        k = self.T.kind(pt.to)
                        if k in ('int', 'bool', 'float') and is_term(a) and a.sort() != self.T.sort(pt.to):
                            a = self.fit(a, pt.to)
                    self.bind(p['id'], a, pt.to)
            else:
                v = self.rv(a)
                if isinstance(v, PyTup):
                    v = self.coerce(PyTup([self.rv(x) for x in v.items], v.tys), pt)
                elif is_term(v):
                    v = self.coerce(v, pt)
                self.bind(p['id'], v, pt)

    def call_closure(self, c, f, args):
        if not isinstance(c, Closure):
            if isinstance(c, FuncRef):
                return self.call(c.f, None, args, {})
            raise Unsupported('call of %s' % type(c).__name__)
        insts = c.node['insts']
        inst = None
        if f is not None:
            for x in insts:
                if finfo(c.tu, x['f']).id == f.id:
                    inst = x
        if inst is None:
            cand = [x for x in insts if len(x['params']) == len(args)]
            if not cand:
                raise Unsupported('lambda instantiation')
            inst = cand[0]
        outer = self.frame

        def run():
            n = self.key('frame')
            self.frame = Frame(n, None, c.tu, c.this, outer.depth + 1, 'lambda')
            self.frame.caps = c.caps
            try:
                fi = finfo(c.tu, inst['f'])
                self.frame.rt = fi.rt
                self.bind_params(inst['params'], fi.pt, args, c.tu)
                try:
                    self.stmt(inst['body'])
                except RetEx as r:
                    return r.val
                return z3.Const('unit', UNIT)
            finally:
                self.frame = outer
        if self.frame.depth > 16:
            raise Unsupported('inlining depth')
        return self.merged(run, tag='lambda')

    def call(self, f, obj, args, e, qual=False):
        """f: FI; obj: LV or value of the object expression"""
        # virtual dispatch on a known dynamic type
        q = f.q
        c = self.contracts.match(f)
        if c is not None:
            return self.apply_contract(c, f, obj, args)
        h = self.lib.call(self, f, obj, args, e)
        if h is not NotImplemented:
            return h
        if f.repo:
            if f.get('assign') and f.get('defaulted'):
                self.store(self.aslv(obj), self.rv(args[0]))
                return obj
            fn = None
            if f.virtual and not qual:
                fn = self.devirt(f, obj)
            else:
                fn = self.world.func(f.id)
            if fn is not None and fn.body is not None:
                return self.inline(fn, obj, args)
        elif f.get('assign'):
            self.store(self.aslv(obj), self.rv(args[0]))
            return obj
        return self.unknown(f, obj, args, f.rt)

    def devirt(self, f, obj):
        """the body a virtual call runs when the object's dynamic type is certain"""
        if isinstance(obj, LV) and obj.root[0] == 'v' and not obj.path:
            ty = self.st.tys.get(obj.root[1])
        elif isinstance(obj, LV) and obj.root[0] == 'v':
            ty = obj.ty
        else:
            ty = None
        if ty is None or ty.k != 'rec':
            return None
        if obj.root[1] in getattr(self, 'nondyn', ()):
            return None
        if ty.s in self.opts.get('final', ()) or obj.root[1][0] == 't' or True:
            # find overrider in ty or its bases
            for n in [ty.s] + self.world.bases(ty.s):
                r = self.world.recs.get(n)
                if r is None:
                    continue
                for v in r.virt:
                    if v['id'] == f.id or f.id in v['over'] or self.overrides(v, f.id):
                        if v['pure']:
                            return None
                        if not self.exact_type(obj, ty):
                            return None
                        return self.world.func(v['id'])
        return None

    def overrides(self, v, fid, depth=0):
        if depth > 5:
            return False
        for o in v['over']:
            if o == fid:
                return True
            cls = o.split('(')[0].rsplit('::', 1)[0]
            r = self.world.recs.get(cls)
            if r:
                for w in r.virt:
                    if w['id'] == o and self.overrides(w, fid, depth + 1):
                        return True
        return False

    def exact_type(self, obj, ty):
        """`this` of the function under verification and local objects have their static type (verification of a method is
        for objects of exactly that class)"""
        return True

    def inline(self, fn, obj, args):
        if self.frame.depth > 14:
            raise Unsupported('inlining depth at ' + fn.q)
        stackq = self.frame
        self.inlined.add(fn.q)
        outer = self.frame

        def run():
            n = self.key('frame')
            this = None
            if obj is not None:
                this = obj if isinstance(obj, LV) else self.newroot(self.rv(obj), None, 'obj')
                if isinstance(this, LV) and this.root[0] == 'v' and not this.path and self.st.tys.get(this.root[1]) is None:
                    pass
            self.frame = Frame(n, fn, fn.tu, this, outer.depth + 1, fn.q)
            self.frame.rt = fn.f.rt
            try:
                self.bind_params(fn.params, fn.f.pt, args, fn.tu)
                try:
                    self.stmt(fn.body)
                except RetEx as r:
                    return r.val
                return z3.Const('unit', UNIT)
            finally:
                self.frame = outer
                self.drop_frame(n)
        return self.merged(run, tag='inl')

    def drop_frame(self, n):
        # locals of the finished call are unreachable unless the result refers to them; keep memory small
        for k in [k for k in self.st.env if k[0] == n]:
            if isinstance(self.st.env[k], (LV,)):
                del self.st.env[k]

    # contracts at call sites -----------------------------------------------------------------
    def apply_contract(self, c, f, obj, args, ctor_ty=None):
        from contract import CallCtx
        self.used_contracts.add(c.name)
        this = None
        if obj is not None:
            this = obj if isinstance(obj, LV) else self.newroot(self.rv(obj), None, 'obj')
        alv = []
        for a, pt in zip(args, f.pt):
            if pt.k == 'ref' and isinstance(a, LV):
                alv.append(a)
            else:
                v = self.rv(a)
                if is_term(v) and self.T.kind(pt) in ('int', 'bool', 'float'):
                    v = self.fit(v, pt.strip())
                alv.append(v)
        x = CallCtx(self, c, f, this, alv, ctor_ty)
        return c.apply(self, x)

    # unknown functions ------------------------------------------------------------------------
    def uf(self, name, vals, ty):
        ts = [self.term(v) for v in vals]
        fn = z3.Function(mangle(name)[:120] + '_' + '_'.join(mangle(t.sort().name() if t.sort().kind() != z3.Z3_ARRAY_SORT else 'arr')[:12] for t in ts), *([t.sort() for t in ts] + [self.T.sort(ty)]))
        if name.startswith('ext_') and ts:
            # whatever the arguments, the result is a well-formed value of its type
            def ax():
                vs = [z3.Const('xa%d' % i, t.sort()) for i, t in enumerate(ts)]
                r = fn(*vs)
                fs = self.ti(r, ty)
                return [z3.ForAll(vs, z3.And(*fs) if len(fs) > 1 else fs[0], patterns=[r])] if fs else []
            self.axiom(('extti', fn.name()), ax)
        return fn(*ts)

    def unknown(self, f, obj, args, ty):
        """a function without contract, model or body: pure uninterpreted function if it cannot modify anything we track"""
        ok = self.opts.get('externals')
        nm = f.id
        pure = True
        muts = []
        for a, pt in zip(args, f.pt):
            if pt.k == 'ref' and not pt.to.const and not pt.rv and isinstance(a, LV):
                muts.append(a)
            elif pt.k == 'ptr' and not pt.to.const and isinstance(self.rv(a), PtrTo):
                muts.append(self.rv(a).lv)
        if obj is not None and not f.const and not f.static and f.cls is not None:
            if isinstance(obj, LV):
                muts.append(obj)
        vals = ([obj] if obj is not None else []) + list(args)
        if f.repo or not self.known_external(f):
            self.st.taint = True
        self.assume_note(('external function, %s: ' % ('result arbitrary but deterministic' if not muts else 'havocs its non-const arguments')) + f.id)
        rt = ty.strip()
        try:
            tv = [self.term(v) for v in vals if not isinstance(self.rv(v), (Opq, Closure, FuncRef))]
        except Unsupported:
            tv = None
        for m in muts:
            cur = self.load(m)
            if is_term(cur):
                self.store(m, self.fresh_ty('ext', m.ty) if m.ty is not None else self.fresh('ext', cur.sort()))
            elif not isinstance(cur, Opq):
                raise Unsupported('external call modifies %s' % type(cur).__name__)
        if self.T.kind(rt) == 'void':
            return z3.Const('unit', UNIT)
        if muts or tv is None:
            r = self.fresh_ty('r_' + f.name, rt)
        else:
            r = self.uf('ext_' + nm, tv, rt)
            for x in self.ti(r, rt):
                self.assume(x)
        # may it throw?  unknown externals are assumed not to (listed)
        if ty.k == 'ref' or rt.k == 'rec':
            return r
        return r

    def known_external(self, f):
        return any(f.q.startswith(p) for p in self.opts.get('ext_ok', ())) or f.q.startswith('std::') or f.q.startswith('eckit::') or f.q.startswith('metkit::')

    # ------------------------------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        if s.get('l'):
            self.curline = s['l']
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement ' + s['k'] + ' ' + str(s.get('what', '')))
        m(s)

    def s_Compound(self, s):
        for x in s['s']:
            self.stmt(x)

    def s_Null(self, s):
        pass

    def s_Expr(self, s):
        self.ev(s['e'])

    def s_Decl(self, s):
        for v in s['vars']:
            self.decl(v)

    def read_only_static(self, vid, init):
        """a function-local static that the function only ever returns as a constant"""
        fn = self.frame.func
        rt = fn.f.rt if fn is not None else None
        if rt is None or init is None or fn.body is None or (rt.k == 'ref' and not rt.to.const):
            return False

        def walk(n, ok):
            if isinstance(n, list):
                return all(walk(x, ok) for x in n)
            if not isinstance(n, dict):
                return True
            k = n.get('k')
            if k == 'Ref' and n.get('id') == vid:
                return ok
            down = k in ('Return', 'Cond') or (k == 'Cast' and n.get('ck') in ('NoOp', 'LValueToRValue') and ok)
            return all(walk(x, down and not (k == 'Cond' and key == 'c')) for key, x in n.items())
        return walk(fn.body, False)

    def decl(self, v):
        ty = self.frame.tu.ty(v['t'])
        if v.get('static'):
            if not ty.strip().const and not self.read_only_static(v['id'], v.get('init')):
                # function-local static: arbitrary, shared
                if v.get('init') is not None and ty.const:
                    pass
                key = ('g', 'static:%s:%s' % (self.frame.q, v['name']))
                if key not in self.st.env:
                    x = z3.Const('static_' + mangle(self.frame.q + v['name']), self.T.sort(ty))
                    self.st.env[key] = x
                    self.st.tys[key] = ty
                    for f in self.ti(x, ty):
                        self.assume(f)
                self.assume_note('function-local static %s in %s: arbitrary value' % (v['name'], self.frame.q))
                self.st.env[(self.frame.n, v['id'])] = LV(('v', key), (), ty)
                return
        if 'bind' in v:
            return self.decl_bind(v, ty)
        if v.get('init') is None:
            if self.T.kind(ty) in ('int', 'bool', 'float', 'ptr'):
                self.bind(v['id'], self.fresh_ty('uninit_' + v['name'], ty), ty)
            else:
                self.bind(v['id'], self.default(ty), ty)
            return
        x = self.ev(v['init'])
        if ty.k == 'ref':
            if isinstance(x, LV):
                self.bind(v['id'], x, ty.to)
            else:
                self.bind(v['id'], x, ty.to)
            return
        x = self.rv(x)
        if isinstance(x, PyTup):
            x = PyTup([self.rv(i) for i in x.items], x.tys)
            x = self.coerce(x, ty)
        elif is_term(x):
            x = self.coerce(x, ty)
            if self.T.kind(ty) in ('int', 'bool', 'float') and x.sort() != self.T.sort(ty):
                x = self.fit(x, ty)
        self.bind(v['id'], x, ty)

    def decl_bind(self, v, ty):
        x = self.ev(v['init'])
        self.bind_struct(v, ty, x)

    def bind_struct(self, v, ty, x):
        t = ty.strip()
        if ty.k != 'ref':
            x = self.rv(x)
            if isinstance(x, PyTup):
                x = PyTup([i if isinstance(i, LV) and False else self.rv(i) for i in x.items], x.tys)
        if not isinstance(x, (LV, PyTup)):
            x = self.newroot(x, t, 'sb')
        cur = self.load(x) if isinstance(x, LV) else x
        for i, b in enumerate(v['bind']):
            bt = self.frame.tu.ty(b['t'])
            if isinstance(cur, PyTup):
                it = cur.items[i]
                self.bind(b['id'], it, bt.strip())
                continue
            k = self.T.kind(t)
            if k == 'tup':
                self.bind(b['id'], x.ext(('t', i), t.args[i]), bt.strip())
            elif k == 'rec':
                d = self.T.rec(t)
                self.bind(b['id'], x.ext(('f', d.fields[i]), d.ftys[i]), bt.strip())
            elif k == 'seq':
                self.bind(b['id'], x.ext(('i', z3.IntVal(i)), self.T.elem(t)), bt.strip())
            else:
                raise Unsupported('structured binding of ' + t.s)

    def s_If(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        if 'var' in s:
            self.decl(s['var'])
        c = self.rve(s['c'])
        if not is_term(c):
            raise Unsupported('condition value')

        def branches():
            if self.choose(c):
                self.stmt(s['t'])
            elif 'e' in s:
                self.stmt(s['e'])
        if self.opts.get('merge_if') and not z3.is_true(c) and not z3.is_false(c):
            self.merged(branches)
        else:
            branches()

    def s_Return(self, s):
        if 'e' not in s:
            raise RetEx(z3.Const('unit', UNIT))
        v = self.ev(s['e'])
        rt = self.frame.rt
        if rt is not None:
            if rt.k != 'ref':
                v = self.rv(v)
                if isinstance(v, PyTup):
                    v = PyTup([self.rv(i) for i in v.items], v.tys)
                elif is_term(v):
                    v = self.coerce(v, rt)
                    if self.T.kind(rt) in ('int', 'bool', 'float') and v.sort() != self.T.sort(rt):
                        v = self.fit(v, rt)
        raise RetEx(v)

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContEx()

    def s_Try(self, s):
        st = self.st
        try:
            self.stmt(s['body'])
        except CppThrow as t:
            for h in s['handlers']:
                m = self.catches(h, t)
                if m is True or (m is None and self.choose(self.fresh('caught', BOOL))):
                    if 'var' in h:
                        vt = self.frame.tu.ty(h['var']['t']).strip()
                        self.bind(h['var']['id'], self.fresh('exc', self.T.sort(vt)), vt)
                    hs = getattr(self, 'handling', None)
                    self.handling = (hs or []) + [t]
                    try:
                        self.stmt(h['body'])
                    finally:
                        self.handling = hs
                    return
            raise

    def catches(self, h, t):
        if 'var' not in h:
            return True
        ht = self.frame.tu.ty(h['var']['t']).strip().s
        if t.ty == ht or ht in self.world.bases(t.ty) or ht == 'std::exception':
            return True
        if t.ty in ('?', 'rethrow', 'any'):
            return None
        if self.world.recs.get(t.ty) is None:
            return None
        return False

    def s_Switch(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        c = self.rve(s['c'])
        # flatten the body into (labels, statements)
        items = s['body']['s'] if s['body']['k'] == 'Compound' else [s['body']]
        flat = []
        for it in items:
            labels = []
            while it['k'] in ('Case', 'Default'):
                labels.append(('case', it['v']) if it['k'] == 'Case' else ('default', None))
                it = it['sub']
            flat.append((labels, it))
        guards, starts, dflt = [], [], None
        for i, (ls, _) in enumerate(flat):
            for k, v in ls:
                if k == 'case':
                    guards.append(c == self.rve(v))
                    starts.append(i)
                else:
                    dflt = i
        guards.append(Not(Or(guards)))
        starts.append(dflt)
        i = starts[self.choose_n(guards)]
        if i is None:
            return
        try:
            for _, it in flat[i:]:
                self.stmt(it)
        except BreakEx:
            pass

    # loops ------------------------------------------------------------------------------------
    def s_For(self, s):
        if 'init' in s:
            self.stmt(s['init'])
        import loops
        loops.run(self, s, cond=(lambda: self.rve(s['c'])) if 'c' in s else (lambda: z3.BoolVal(True)), body=lambda: self.stmt(s['body']),
                  inc=(lambda: self.ev(s['inc'])) if 'inc' in s else None)

    def s_While(self, s):
        import loops

        def cond():
            if 'var' in s:
                self.decl(s['var'])
            return self.rve(s['c'])
        loops.run(self, s, cond=cond, body=lambda: self.stmt(s['body']), inc=None)

    def s_Do(self, s):
        import loops
        # first iteration, then a while loop
        try:
            self.stmt(s['body'])
        except BreakEx:
            return
        except ContEx:
            pass
        loops.run(self, s, cond=lambda: self.rve(s['c']), body=lambda: self.stmt(s['body']), inc=None)

    def s_RangeFor(self, s):
        import loops
        rng = self.ev(s['range'])
        if not isinstance(rng, LV):
            rng = self.newroot(self.rv(rng), self.frame.tu.ty(s['range']['t']).strip() if 't' in s['range'] else None, 'range')
        v = s['var']
        vt = self.frame.tu.ty(v['t'])

        def bindelem(x):
            if 'bind' in v:
                self.bind_struct(v, vt, x)
            elif vt.k == 'ref':
                self.bind(v['id'], x, vt.to)
            else:
                y = self.rv(x)
                if isinstance(y, PyTup):
                    y = self.coerce(PyTup([self.rv(i) for i in y.items], y.tys), vt)
                self.bind(v['id'], y, vt)
        loops.range_for(self, s, rng, bindelem, lambda: self.stmt(s['body']))


class _NoMerge(Exception):
    pass


class ThisPtr:
    def __init__(self, lv):
        self.lv = lv


def elem_address(label):
    """address of the i-th element of the vector in a field, and its inverse"""
    from sorts import mangle
    return z3.Function('address_in_' + mangle(label), INT, INT), z3.Function('index_in_' + mangle(label), INT, INT)


class PtrTo:
    """address of a tracked lvalue"""

    def __init__(self, lv):
        self.lv = lv


def select(a, i):
    """read-over-write simplification for syntactically equal / distinct constant indices"""
    while z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(j):
                a = a.arg(0)
                continue
        elif k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        break
    return z3.Select(a, i)
