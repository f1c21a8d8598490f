"""Contracts on the functions of /repo, their application at call sites and their verification against the real bodies."""
import z3
import execu as X
from execu import LV, PyTup, CppThrow, PathDone, RetEx, And, Or, Not, Ite, is_term, Frame, State, select
from sorts import INT, BOOL, STR, REAL, Unsupported, dt_of, mangle


class V:
    """typed read-only view of a term for specifications; scalars come back as plain terms"""

    def __init__(self, ex, t, ty):
        self.__dict__['ex'], self.__dict__['t'], self.__dict__['ty'] = ex, t, ty.strip() if ty is not None else None

    def w(self, t, ty):
        ty = ty.strip() if ty is not None else None
        if dt_of(t) is None:
            return t
        return V(self.ex, t, ty)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        d = dt_of(self.t)
        if d is None:
            raise Unsupported('no field %s' % n)
        kk = d.key[:4]
        for cand in (n, n + '_') if kk not in ('Opt<', 'Tup<', 'Seq<', 'Map<', 'Set<', 'Var<') else ():
            for i, l in enumerate(d.fields):
                if l == cand or l.endswith('::' + cand):
                    ty = d.ftys[i]
                    if ty is None and d.key.startswith('Tup<'):
                        ty = self.ty.args[i]
                    return self.w(d.get(self.t, i), ty)
        if n in ('first', 'second'):
            i = 0 if n == 'first' else 1
            return self.w(d.get(self.t, i), self.ty.args[i] if self.ty is not None and self.ty.args else None)
        if n == 'n':
            if d.fields[0] == 'len':
                return d.get(self.t, 0)
            return self.ex.card(d.get(self.t, 0))
        if n == 'some':
            return d.get(self.t, 0)
        if n == 'val' and d.key.startswith('Opt<'):
            return self.w(d.get(self.t, 1), self.ty.args[0] if self.ty is not None else None)
        raise Unsupported('annotation refers to %s, which %s does not have' % (n, d.key))

    def field(self, pred):
        """the only field whose (label, type) satisfies pred: specifications that do not depend on names"""
        d = dt_of(self.t)
        c = [i for i, l in enumerate(d.fields) if pred(l, d.ftys[i])]
        if len(c) != 1:
            raise Unsupported('annotation: field not unique in ' + d.key)
        return self.w(d.get(self.t, c[0]), d.ftys[c[0]])

    def __getitem__(self, i):
        d = dt_of(self.t)
        if isinstance(i, int):
            i = z3.IntVal(i)
        if d.fields[0] == 'len':
            et = self.ex.T.elem(self.ty) if self.ty is not None else None
            return self.w(select(d.get(self.t, 1), i), et)
        if d.key.startswith('Map<'):
            return self.w(select(d.get(self.t, 1), i), self.ty.args[1] if self.ty is not None else None)
        if d.key.startswith('Tup<'):
            k = i.as_long()
            return self.w(d.get(self.t, k), self.ty.args[k] if self.ty is not None else None)
        raise Unsupported('index of ' + d.key)

    def do(self, name, *args):
        """value of a const accessor of the class, from its real body (so that private names do not matter)"""
        ex = self.ex
        fn = None
        for cls in [self.ty.s] + ex.world.bases(self.ty.s):
            fs = [f for f in ex.world.find(cls + '::' + name) if f.f.const and len(f.params) == len(args) and f.body is not None]
            if not fs:
                for fid in list(ex.world.index()):
                    if fid.startswith(cls + '::' + name + '('):
                        ex.world.func(fid)
                fs = [f for f in ex.world.find(cls + '::' + name) if f.f.const and len(f.params) == len(args) and f.body is not None]
            if fs:
                fn = fs[0]
                break
        if fn is None:
            raise Unsupported('annotation uses accessor %s::%s, which is gone' % (self.ty.s, name))
        st, em, fr = ex.st, ex.emit, ex.frame
        saved = (ex.ctx, ex.nfresh, ex.nnest, ex.nob)
        ex.st = st.copy()
        npc = len(ex.st.pc)
        ex.emit = False
        ex.ctx, ex.nfresh, ex.nnest, ex.nob = ex.intern(('acc', ex.ctx, tuple(ex.trail[:ex.pos]), self.t.get_id(), name, ex.nnest, ex.nfresh)), 0, 0, 0
        if fr is None:
            ex.frame = Frame(-2, None, fn.tu, None, 0, 'spec')
        try:
            root = ex.newroot(self.t, self.ty, 'spec')
            r = ex.inline(fn, root, list(args))
            r = ex.term(r)
            extra = ex.st.pc[npc:]
        finally:
            ex.st, ex.emit, ex.frame = st, em, fr
            (ex.ctx, ex.nfresh, ex.nnest, ex.nob) = saved
        for k, f in extra:
            if k == 'b':
                raise Unsupported('accessor with branches in an annotation')
            ex.assume(f)
        return self.w(r, fn.f.rt)

    def at(self, ref, ty, old=False):
        """the object a pointer-valued term refers to, in the current or in the initial heap"""
        return pointed(self.ex, ref, ty, old)

    def has(self, k):
        d = dt_of(self.t)
        return select(d.get(self.t, 0), k)

    @property
    def arr(self):
        return dt_of(self.t).get(self.t, 1)

    @property
    def hasarr(self):
        return dt_of(self.t).get(self.t, 0)

    def eq(self, o):
        import lib
        return lib.eq(self.ex, self.t, o.t if isinstance(o, V) else o, self.ty)


def pointed(ex, ref, ty, old=False):
    ty = ty.strip()
    lv = ex.deref(ref, ty)
    if old:
        h = ex.st.heap
        if ex.oldheap is not None:
            ex.st.heap = dict(ex.oldheap)
        else:
            ex.st.heap = {k: z3.Const('heap0_' + mangle(str(k)), v.sort()) for k, v in h.items()}
        try:
            t = ex.load(lv)
        finally:
            ex.st.heap = h
    else:
        t = ex.load(lv)
    return V(ex, t, ty) if dt_of(t) is not None else t


def raw(x):
    return x.t if isinstance(x, V) else x


class Ctx:
    """what a contract's clauses talk about"""

    def __init__(self, ex):
        self.ex = ex
        self.this = self.old = self.ret = None
        self.args = []
        self.pre = []
        self.thrown = None
        self.thislv = None

    def fresh(self, name, sort=INT):
        return z3.Const('%s?%d' % (name, self.ex.key('q')), sort)

    def all_int(self, name, fn, n=1):
        vs = [z3.Int('%s%d?%d' % (name, i, self.ex.key('q'))) for i in range(n)]
        return z3.ForAll(vs, fn(*vs))


class Contract:
    def __init__(self, q, nargs=None, sig=None, const=None, name=None, requires=None, ensures=None, throws=None, modifies=(), tmpl=None,
                 pure=False, verify=True, may_throw=None, params=None, trusted=False, lemmas=None, ctor=False, safety=True,
                 inv=True, src=None, use=True, this_ty=None, opts=None, lo=None, only_in=None, value=None, ghosts=None, refret=False, memo=()):
        if value is not None:
            ens0 = ensures
            def ensures(c):
                # over the arguments as they were before the call: callers take them as not changed
                now = c.this, c.args
                c.this, c.args = c.old, c.pre
                try:
                    v = value(c)
                finally:
                    c.this, c.args = now
                return [(v[0], raw(c.ret) == raw(v[1]))] + (ens0(c) if ens0 else [])
        self.value = value      # (text, term): the result as a term over the arguments; callers compute with the term itself
        self.q, self.nargs, self.sig, self.constness = q, nargs, sig, const
        self.name = name or q
        self.requires, self.ensures, self.throws = requires, ensures, throws
        self.modifies, self.tmpl, self.pure, self.verify_ = tuple(modifies), tmpl, pure, verify
        self.may_throw = may_throw      # at call sites: [(type, cond(c) or None)]
        self.trusted, self.lemmas, self.ctor, self.safety, self.inv, self.src, self.use = trusted, lemmas, ctor, safety, inv, src, use
        self.this_ty = this_ty
        self.opts = opts or {}
        self.only_in = only_in
        self.memo = tuple(memo)         # mutable fields that only remember an answer: the body may change them, callers take them as kept
        self.refret = refret            # the function returns a reference to an object on the heap: the result is its identity
        self.ghosts = ghosts            # ghost variables a call may change (every other one is kept, which is an obligation of the body)

    def matches(self, f, nparams=None):
        if f.q != self.q:
            return False
        n = len(f.pt)
        if self.nargs is not None and n != self.nargs:
            return False
        if self.sig is not None and self.sig not in f.id:
            return False
        if self.constness is not None and f.const != self.constness:
            return False
        return True

    def find(self, world):
        for src in self.src or ():
            world.load(src)
        fs = [f for f in world.byq.get(self.q, []) if self.matches(f.f) and f.body is not None]
        if not fs:
            # load on demand through the index
            for fid in list(world.index()):
                if fid.startswith(self.q + '('):
                    world.func(fid)
            fs = [f for f in world.byq.get(self.q, []) if self.matches(f.f) and f.body is not None]
        return fs

    # ---------------------------------------------------------------------------------------- at a call site
    def apply(self, ex, x):
        f = x.f
        c = Ctx(ex)
        c.args = [ex_view(ex, a, pt) for a, pt in zip(x.args, f.pt)]
        c.pre = list(c.args)
        thisty = None
        if x.this is not None:
            thisty = x.this.ty or ex.st.tys.get(x.this.root[1])
            c.this = c.old = ex_view(ex, x.this, thisty)
            c.thislv = x.this
        c.arglvs = list(x.args)
        if self.requires:
            for n, g in self.requires(c):
                ex.oblige('precondition of %s: %s' % (short(self.name), n), g, 'pre')
        # exceptional outcomes
        for t, cond in self.may_throw or ():
            g = cond(c) if cond is not None else ex.fresh('throws', BOOL)
            if ex.choose(g):
                raise CppThrow(t)
        # frame
        for m in self.modifies:
            if m == 'this':
                lv = x.this
            elif isinstance(m, tuple):
                lv = None
                for i, l in enumerate(ex.T.rec(thisty).fields):
                    if l.endswith('::' + m[1]):
                        lv = x.this.ext(('f', l), ex.T.rec(thisty).ftys[i])
                if lv is None:
                    raise Unsupported('modifies clause: no field ' + m[1])
            elif isinstance(m, str) and m.startswith('heap:'):
                continue
            else:
                lv = x.args[m]
                if not isinstance(lv, X.PtrTo) and isinstance(lv, LV) and isinstance(ex.load(lv), X.PtrTo):
                    lv = ex.load(lv)
                if isinstance(lv, X.PtrTo):
                    lv = lv.lv
            if not isinstance(lv, LV):
                raise Unsupported('modified argument is not an lvalue')
            cur = ex.load(lv)
            if m == 'this' and is_term(cur) and dt_of(cur) is not None and f.cls and not (isinstance(x.this.root, tuple) and x.this.root[0] == 'h' and len(x.this.path) == 1):
                own = [f.cls] + ex.world.bases(f.cls)
                d = dt_of(cur)
                if any('::' in l and l.rsplit('::', 1)[0] not in own for l in d.fields):
                    # a method of a base class: only the fields of the base
                    for l, ft in zip(d.fields, d.ftys):
                        if l.rsplit('::', 1)[0] in own:
                            ex.store(lv.ext(('f', l), ft), ex.fresh_ty('post_' + short(self.name), ft))
                    continue
            if is_term(cur):
                ex.store(LV(lv.root, lv.path, None), ex.fresh_ty('post_' + short(self.name), lv.ty) if lv.ty is not None else ex.fresh('post', cur.sort()))
        c.gold = dict(ex.st.ghost)
        hp = [m[5:] for m in self.modifies if isinstance(m, str) and m.startswith('heap:')]
        oldheap = None
        if hp:
            self.ensures(c)             # so that the part of the heap it talks about is there
            oldheap = dict(ex.st.heap)
            for k, h in list(ex.st.heap.items()):
                if any(p in str(k) for p in hp):
                    ex.st.heap[k] = ex.fresh('heap_' + mangle(str(k)), h.sort())
        for g in self.ghosts or ():
            o = ex.st.ghost[g] if g != 'alloc' else ex.st.ghost.get('alloc', z3.Const('alloc0', INT))
            ex.st.ghost[g] = ex.fresh('ghost_' + g, o.sort())
            if g == 'alloc':
                ex.assume(ex.st.ghost[g] >= o)
        rt = x.ctor_ty if x.ctor_ty is not None else f.rt
        if self.value is not None:
            r = self.value(c)[1]
            r = r.t if isinstance(r, V) else r
            c.ret = V(ex, r, rt) if dt_of(r) is not None else r
            return r
        if self.refret:
            r = ex.fresh('ref_' + short(self.name), INT)
        elif ex.T.kind(rt) == 'void':
            r = z3.Const('unit', X.UNIT)
        elif self.pure:
            vals = ([x.this] if x.this is not None else []) + list(x.args)
            r = ex.uf('fn_' + self.name, [ex.term(v) for v in vals], rt.strip())
            for g in ex.ti(r, rt.strip()):
                ex.assume(g)
        else:
            r = ex.fresh_ty('ret_' + short(self.name), rt.strip())
        c.ret = V(ex, r, rt) if dt_of(r) is not None else r
        c.args = [ex_view(ex, a, pt) for a, pt in zip(x.args, f.pt)]
        if x.this is not None:
            c.this = ex_view(ex, x.this, thisty)
        if x.ctor_ty is not None:
            c.this = c.ret
        if self.ensures:
            ex.oldheap = oldheap
            try:
                for n, g in self.ensures(c):
                    ex.assume(g)
            finally:
                ex.oldheap = None
        if self.refret:
            return ex.deref(r, rt.strip())
        return r


def short(n):
    return n.split('::')[-1]


def ex_view(ex, a, pt):
    if isinstance(a, X.PtrTo):
        return ex_view(ex, a.lv, a.lv.ty)
    try:
        v = ex.rv(a) if not isinstance(a, LV) else ex.load(a)
    except Unsupported:
        return a
    if isinstance(v, PyTup):
        try:
            v = ex.term(v, pt)
        except Unsupported:
            return v
    if is_term(v):
        if dt_of(v) is not None:
            return V(ex, v, (pt.strip() if pt is not None else (a.ty if isinstance(a, LV) else None)))
        return v
    return v


class CallCtx:
    def __init__(self, ex, c, f, this, args, ctor_ty):
        self.ex, self.c, self.f, self.this, self.args, self.ctor_ty = ex, c, f, this, args, ctor_ty


class Inv:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Registry:
    def __init__(self):
        self.list = []
        self.byq = {}
        self.invs = {}
        self.active = None      # contract under verification

    def add(self, c):
        self.list.append(c)
        self.byq.setdefault(c.q, []).append(c)
        return c

    def match(self, f):
        for c in self.byq.get(f.q, ()):
            if c.use and c.matches(f) and (c is not self.active or c.opts.get('rec')) and (c.only_in is None or self.active is not None and self.active.name in c.only_in):
                return c
        return None


def verify(ex, c, fn):
    """symbolically execute fn against contract c; fills ex.obls"""
    reg = ex.contracts
    reg.active = c
    ex.target = c.name
    ex.tmpl = [c.tmpl] if c.tmpl else []
    ex.safety = c.safety
    for k, v in c.opts.items():
        ex.opts[k] = v
    isctor = fn.q.endswith('::<ctor>')
    W = ex.world
    clsname = fn.f.cls

    def run():
        ex.frame = Frame(0, fn, fn.tu, None, 0, fn.q)
        ex.st.ghost.setdefault('alloc', z3.Const('alloc0', INT))
        ex.frame.rt = fn.f.rt
        ctx = Ctx(ex)
        this = None
        if clsname is not None and not fn.f.static:
            r = W.recs.get((c.this_ty(fn) if callable(c.this_ty) else c.this_ty) or clsname)
            if r is None and (isctor or not fn.f.const):
                raise Unsupported('no record for ' + clsname)
        if clsname is not None and not fn.f.static and r is not None:
            ty = r.t
            k = ('this', 'this')
            this = LV(('v', k), (), ty)
            ex.st.tys[k] = ty
            if isctor:
                d = ex.T.rec(ty)
                ex.st.env[k] = d.make(*[ex.fresh('uninit_' + l.split('::')[-1], s) for l, s in zip(d.fields, d.fsorts)])
            else:
                ex.st.env[k] = z3.Const('this', ex.T.sort(ty))
                for g in ex.ti(ex.st.env[k], ty):
                    ex.assume(g)
            ctx.thislv = this
            ctx.old = ctx.this = V(ex, ex.st.env[k], ty)
            ex.frame.this = this
        this0 = ex.st.env[('this', 'this')] if this is not None else None
        lvs = []
        for i, (p, pt) in enumerate(zip(fn.params, fn.f.pt)):
            t = pt.strip()
            k = ('arg', i)
            kind = ex.T.kind(t)
            if kind in ('fn',) or t.lam:
                raise Unsupported('function-typed parameter')
            if kind == 'opaque' and c.opts.get('opq_args'):
                v = X.Opq('arg%d' % i)
            elif i in c.opts.get('objargs', ()):
                # an object with an identity of its own (its functions are virtual)
                o = z3.Int('object%d' % i)
                ex.assume(o > 0)
                lvs.append(ex.deref(o, t))
                continue
            else:
                v = z3.Const('arg%d' % i, ex.T.sort(t))
                for g in ex.ti(v, t):
                    ex.assume(g)
            ex.st.env[k] = v
            ex.st.tys[k] = t
            lv = LV(('v', k), (), t)
            lvs.append(lv)
        ctx.args = [ex_view(ex, lv, pt) for lv, pt in zip(lvs, fn.f.pt)]
        ctx.pre = list(ctx.args)
        ctx.lvs = ctx.arglvs = lvs
        ctx.lv0 = [ex.st.env[lv.root[1]] if lv.root[0] == 'v' else None for lv in lvs]
        if c.requires:
            for n, g in c.requires(ctx):
                ex.assume(g)
        ctx.gold = dict(ex.st.ghost)
        for p, pt, lv in zip(fn.params, fn.f.pt, lvs):
            if pt.k == 'ref':
                ex.bind(p['id'], lv, pt.to)
            else:
                ex.bind(p['id'], ex.load(lv), pt)
        thrown = None
        rv = None
        try:
            if isctor:
                body_ctor(ex, fn, this)
            else:
                ex.stmt(fn.body)
        except RetEx as r:
            rv = r.val
        except CppThrow as t:
            thrown = t
        ex.frame = Frame(0, fn, fn.tu, this, 0, fn.q)
        ctx.args = [ex_view(ex, lv, pt) for lv, pt in zip(lvs, fn.f.pt)]
        if this is not None:
            ctx.this = ex_view(ex, this, this.ty)
        if thrown is not None:
            ctx.thrown = thrown
            if c.throws is None:
                ex.oblige('%s does not throw (%s)' % (short(c.name), thrown.ty), z3.BoolVal(False), 'throw')
            elif c.throws != 'any':
                for n, g in c.throws(ctx):
                    ex.oblige('%s: when it throws, %s' % (short(c.name), n), g, 'throw')
        else:
            if c.refret:
                if not isinstance(rv, LV) or rv.root[0] != 'h' or len(rv.path) != 1:
                    raise Unsupported('a reference that is not to an object on the heap is returned')
                ctx.ret = rv.path[0][1]
            elif rv is not None and ex.T.kind(fn.f.rt) != 'void':
                v = ex.rv(rv)
                if not isinstance(v, (X.Opq, X.Iter)):
                    v = ex.term(v, fn.f.rt.strip() if fn.f.rt.k != 'ref' else None)
                    v = V(ex, v, fn.f.rt) if dt_of(v) is not None else v
                ctx.ret = v
            if isctor:
                ctx.ret = ctx.this
            for n, g in (c.ensures(ctx) if c.ensures else []):
                ex.oblige('%s: %s' % (short(c.name), n), g, 'post')
            if c.ghosts is not None:
                for n, o in ctx.gold.items():
                    if n not in c.ghosts and n != 'alloc':
                        ex.oblige('%s keeps the ghost state %s' % (short(c.name), n), ex.st.ghost[n] == o, 'frame')
            frame_kept(ex, c, fn, this, this0, lvs, ctx)
            # class invariants at exit
            if this is not None and c.inv and (isctor or not fn.f.const):
                for n in [this.ty.s] + W.bases(this.ty.s):
                    for inv in reg.invs.get(n, []):
                        for nm, g in inv.fn(ctx.this, ex):
                            ex.oblige('%s establishes invariant %s of %s' % (short(c.name), nm, short(n)), g, 'inv')
        return None
    outs = ex.explore(run, tag='verify')
    return outs


def frame_kept(ex, c, fn, this, this0, lvs, ctx):
    """what the contract does not list as modified is as before"""
    def kept(what, new, old):
        if not (is_term(new) and is_term(old)) or new.eq(old):
            return
        d = dt_of(new)
        if d is not None and new.sort() == old.sort() and d.key[:4] not in ('Map<', 'Set<', 'Seq<', 'Opt<', 'Var<'):
            for i, l in enumerate(d.fields):
                a, b = z3.simplify(d.get(new, i)), z3.simplify(d.get(old, i))
                if not a.eq(b):
                    kept('%s.%s' % (what, l.split('::')[-1]), a, b)
            return
        ex.oblige('%s keeps %s' % (short(c.name), what), new == old, 'frame')
    for i, (lv, pt) in enumerate(zip(lvs, fn.f.pt)):
        if pt.k == 'ref' and i not in c.modifies and lv.root[0] == 'v':
            kept('argument %d' % (i + 1), ex.st.env[lv.root[1]], ctx.lv0[i])
    if this is not None and not fn.q.endswith('::<ctor>') and 'this' not in c.modifies:
        new = ex.st.env[this.root[1]]
        names = [m[1] for m in c.modifies if isinstance(m, tuple)] + list(c.memo)
        d = dt_of(new)
        if d is not None and not new.eq(this0):
            for i, l in enumerate(d.fields):
                if l.split('::')[-1] not in names:
                    a, b = z3.simplify(d.get(new, i)), z3.simplify(d.get(this0, i))
                    if not a.eq(b):
                        kept(l.split('::')[-1], a, b)
    a0 = z3.Const('alloc0', INT)
    for k, h in ex.st.heap.items():
        h0 = z3.Const('heap0_' + mangle(str(k)), h.sort())
        if h.eq(h0) or any(isinstance(m, str) and m.startswith('heap:') and m[5:] in str(k) for m in c.modifies):
            continue
        r = ctx.fresh('ref')
        ex.oblige('%s keeps the objects it was given (%s)' % (short(c.name), k), z3.ForAll([r], z3.Implies(And(0 <= r, r <= a0, r != z3.Const('ext___errno_location__', INT)), z3.Select(h, r) == z3.Select(h0, r))), 'frame')


def body_ctor(ex, fn, this):
    frame = ex.frame
    for i in fn.inits or []:
        if i.get('delegate'):
            ex.store(this, ex.rv(ex.ev(i['e'])))
        elif 'base' in i:
            bt = fn.tu.ty(i['base'])
            if ex.T.kind(bt) == 'rec':
                ex.init_base(this, bt, i['e'], fn)
        elif 'field' in i:
            lab = ex.field_label(fn.f.cls, i['field'])
            ft = ex.field_type(this.ty, lab)
            v = ex.rv(ex.ev(i['e'])) if i['e'] is not None else ex.default(ft)
            ex.store(this.ext(('f', lab), ft), ex.fit(ex.term(v, ft), ft))
    if fn.body is not None:
        ex.stmt(fn.body)
