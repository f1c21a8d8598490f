"""Contracts of the chunked data view: axes, index maps, bounding boxes, chunk grid."""
import z3
import recfun, lib
from contract import Contract, Inv, V
from execu import And, Or, Not

NS = 'chunked_data_view::'
SRC = ['src/chunked_data_view/ViewPart.cc', 'src/chunked_data_view/Axis.cc', 'src/chunked_data_view/mapping/IndexMapper.cc',
       'src/chunked_data_view/mapping/AxisMapper.cc', 'src/chunked_data_view/RequestManipulation.cc', 'src/chunked_data_view/ChunkedDataViewImpl.cc']


def forall(c, n, fn, name='i'):
    """for all 0 <= i < n"""
    i = z3.Int('%s?%d' % (name, c.ex.key('q')))
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), fn(i)))


def bb_inv(v, ex):
    lo, up = v.do('lower'), v.do('upper')
    i = z3.Int('bbi')
    return [('as many upper as lower corners', lo.n == up.n),
            ('lower <= upper in every dimension', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lo.n), z3.And(lo[i] <= up[i])), patterns=[z3.MultiPattern(lo[i], up[i])]))]


# ------------------------------------------------------------------------------------------------ mixed radix
class Radix:
    """specification functions over a parameter list: suf(P,j) = product of the cardinalities from j on,
    idx(P,K,j) = row-major index contributed by parameters j.. of key K"""

    def __init__(self, ex):
        self.ex = ex
        at = ex.world.recn(NS + 'Axis').t
        self.pty = [ft for l, ft in ex.world.fields(at) if ex.T.kind(ft) == 'seq'][0]
        self.S = ex.T.sort(self.pty)
        self.K = ex.T.sort(ex.world.recn('fdb5::Key').t)
        self.suf = recfun.RecFun('suf', [self.S, z3.IntSort()], z3.IntSort(), self.u_suf)
        self.idx = recfun.RecFun('idx', [self.S, self.K, z3.IntSort()], z3.IntSort(), self.u_idx)

    def P(self, t):
        return V(self.ex, t, self.pty)

    def card(self, P, j):
        return self.P(P)[j].do('values').n

    def u_suf(self, P, j):
        n = self.P(P).n
        return [z3.Implies(j >= n, self.suf(P, j) == 1), z3.Implies(z3.And(j >= 0, j < n), self.suf(P, j) == self.card(P, j) * self.suf(P, j + 1))]

    def pos(self, P, K, j):
        p = self.P(P)[j]
        vals = p.do('values')
        v = keyval(self.ex, K, p.do('name'))
        return lib.findpos(self.ex, vals.t, z3.IntVal(0), vals.n, v, self.ex.T.elem(vals.ty))

    def u_idx(self, P, K, j):
        n = self.P(P).n
        return [z3.Implies(j >= n, self.idx(P, K, j) == 0),
                z3.Implies(z3.And(j >= 0, j < n), self.idx(P, K, j) == self.pos(P, K, j) * self.suf(P, j + 1) + self.idx(P, K, j + 1))]


def keymap(ex, K):
    """the keyword -> value map of a key"""
    return V(ex, K, ex.world.recn('fdb5::Key').t).field(lambda l, t: ex.T.kind(t) == 'map')


def keyval(ex, K, name):
    return keymap(ex, K)[name]


def radix(ex):
    r = getattr(ex, '_radix', None)
    if r is None:
        r = ex._radix = Radix(ex)
    return r


def params(axis):
    return axis.do('parameters').t


def axis_inv(v, ex):
    r = radix(ex)
    return [('size is the product of the parameter cardinalities', v.do('size') == r.suf(params(v), z3.IntVal(0)))]


def index_tmpl(lp):
    ex = lp.ex
    r = radix(ex)
    P, K = params(lp.this()), lp.arg(0).t
    out = []
    for cl, step in lp.counters:
        for a in lp.ints():
            if a.id() == cl.id():
                continue
            nxt = lambda st, cl=cl, step=step: lp.c(st, cl) + (1 if step < 0 else 0)
            out.append(('stride', lambda st, a=a, nxt=nxt: lp.c(st, a) == r.suf(P, nxt(st))))
            out.append(('partial index', lambda st, a=a, nxt=nxt: lp.c(st, a) == r.idx(P, K, nxt(st))))
            out.append(('partial index below stride', lambda st, a=a, nxt=nxt: And(lp.c(st, a) >= 0, lp.c(st, a) < r.suf(P, nxt(st)))))
    return out


def suf_tmpl(lp):
    """products of cardinalities, upwards: v * suf(c) is constant"""
    ex = lp.ex
    r = radix(ex)
    try:
        P = params(lp.this())
    except KeyError:
        P = params(lp.arg(1))
    out = []
    for cl, step in lp.counters:
        for a in lp.ints():
            if a.id() != cl.id():
                out.append(('product so far', lambda st, a=a, cl=cl: lp.c(st, a) * r.suf(P, lp.c(st, cl)) == lp.e(a) * r.suf(P, lp.e(cl))))
    return out


def accum_tmpl(lp):
    """Axis(parameters): the product over the argument list"""
    ex = lp.ex
    r = radix(ex)
    P = lp.arg(0).t
    out = []
    for cl, step in lp.counters:
        for a in lp.ints():
            if a.id() != cl.id():
                out.append(('product so far', lambda st, a=a, cl=cl: And(lp.c(st, a) * r.suf(P, lp.c(st, cl)) == r.suf(P, z3.IntVal(0)))))
    return out


def register_axis(R):
    AX = NS + 'Axis::'
    R.invs[NS + 'Axis'] = [Inv('axis', axis_inv)]
    S = ['src/chunked_data_view/Axis.cc']
    R.add(Contract(AX + '<ctor>', nargs=1, name='Axis(parameters)', sig='Parameter', src=S, tmpl=accum_tmpl, throws=None,
                   ensures=lambda c: [('keeps the parameters in order', c.this.do('parameters').eq(c.pre[0]))]))

    def index_post(c):
        r = radix(c.ex)
        P, K = params(c.this), c.args[0].t
        return [('row-major index of the key values', c.ret == r.idx(P, K, z3.IntVal(0))),
                ('inside the axis', And(c.ret >= 0, c.ret < c.this.do('size')))]
    R.add(Contract(AX + 'index', nargs=1, src=S, tmpl=index_tmpl, ensures=index_post, pure=True,
                   throws=lambda c: [('some parameter has no matching value in the key', Not(all_found(c)))], may_throw=[('eckit::Exception', lambda c: Not(all_found(c)))]))


def all_found(c):
    r = radix(c.ex)
    P, K = c.this.do('parameters'), c.args[0].t
    km = keymap(c.ex, K)
    return forall(c, P.n, lambda i: And(km.has(P[i].do('name')), r.pos(P.t, K, i) < P[i].do('values').n))


def register(R):
    register_axis(R)
    register_map(R)
    register_more(R)
    R.invs[NS + 'BoundingBox'] = [Inv('box', bb_inv)]
    BB = NS + 'BoundingBox::'
    R.add(Contract(BB + '<ctor>', nargs=2, name='BoundingBox(lower,upper)', src=SRC[:1],
                   ensures=lambda c: [('stores the lower corner', c.this.do('lower').eq(c.pre[0])), ('stores the upper corner', c.this.do('upper').eq(c.pre[1]))],
                   throws=lambda c: [('the corners do not form a box', Or(c.pre[0].n != c.pre[1].n, Not(forall(c, c.pre[0].n, lambda i: c.pre[0][i] <= c.pre[1][i]))))],
                   may_throw=[(NS + 'BoundingBoxException', lambda c: Or(c.args[0].n != c.args[1].n, Not(forall(c, c.args[0].n, lambda i: c.args[0][i] <= c.args[1][i]))))]))

    def same_dims(c):
        return [('same dimensions', c.this.do('lower').n == c.args[0].do('lower').n)]

    def box(b):
        return b.do('lower'), b.do('upper')

    def contains_post(c):
        (l, u), (ol, ou) = box(c.this), box(c.args[0])
        return [('true exactly when every coordinate range is inside', c.ret == forall(c, l.n, lambda i: And(ol[i] >= l[i], ou[i] <= u[i])))]
    R.add(Contract(BB + 'contains', nargs=1, requires=same_dims, ensures=contains_post, src=SRC[:1]))

    def intersect_post(c):
        (l, u), (ol, ou) = box(c.this), box(c.args[0])
        r = c.ret
        rl, ru = r.val.do('lower'), r.val.do('upper')
        mx = lambda a, b: z3.If(a >= b, a, b)
        mn = lambda a, b: z3.If(a <= b, a, b)
        return [('empty exactly when some axis is separated', r.some == forall(c, l.n, lambda i: And(u[i] >= ol[i], l[i] <= ou[i]))),
                ('dimensions', z3.Implies(r.some, And(rl.n == l.n, ru.n == l.n))),
                ('lower is the maximum', z3.Implies(r.some, forall(c, l.n, lambda i: rl[i] == mx(l[i], ol[i])))),
                ('upper is the minimum', z3.Implies(r.some, forall(c, l.n, lambda i: ru[i] == mn(u[i], ou[i]))))]
    R.add(Contract(BB + 'intersect', nargs=1, requires=same_dims, ensures=intersect_post, src=SRC[:1]))

    def sub_post(c):
        (l, u), (rl, ru), s = box(c.this), box(c.ret), c.args[0]
        return [('dimensions', rl.n == l.n), ('lower shifted', forall(c, l.n, lambda i: rl[i] == l[i] - s[i])), ('upper shifted', forall(c, l.n, lambda i: ru[i] == u[i] - s[i]))]
    R.add(Contract(BB + 'subtract', nargs=1, requires=lambda c: [('one offset per dimension', c.args[0].n == c.this.do('lower').n)], ensures=sub_post,
                   throws=lambda c: [('some coordinate would underflow', Not(forall(c, c.this.do('lower').n, lambda i: c.this.do('lower')[i] >= c.args[0][i])))], src=SRC[:1]))


# ------------------------------------------------------------------------------------------------ digits
def digits(ex):
    """digit(P,x,k) = (x mod suf(P,k)) div suf(P,k+1)"""
    d = getattr(ex, '_digits', None)
    if d is None:
        r = radix(ex)
        I = z3.IntSort()
        rem = recfun.RecFun('rem', [I, r.S, I], I, lambda x, P, k: rem_def(r, x, P, k))
        dig = recfun.RecFun('digit', [I, r.S, I], I, lambda x, P, k: dig_def(r, rem, x, P, k))
        d = ex._digits = (rem, dig)
    return d


def rem_def(r, x, P, k):
    rem = recfun._reg['rem']
    n = r.P(P).n
    s0, s1 = r.suf(P, k), r.suf(P, k + 1)
    return [z3.Implies(s0 > 0, And(rem(x, P, k) == x % s0, rem(x, P, k) >= 0, rem(x, P, k) < s0)),
            # lemma mod_mod_mul (lemmas/arith.v) with c = card(k), m = suf(k+1)
            z3.Implies(z3.And(x >= 0, k >= 0, k < n, r.card(P, k) > 0, s1 > 0), rem(x, P, k) % s1 == rem(x, P, k + 1))]


def dig_def(r, rem, x, P, k):
    n = r.P(P).n
    s1, c = r.suf(P, k + 1), r.card(P, k)
    y = rem(x, P, k)
    return [recfun._reg['digit'](x, P, k) == y / s1,
            z3.Implies(z3.And(x >= 0, k >= 0, k < n, c > 0, s1 > 0), z3.And(y / s1 >= 0, y / s1 < c, y == (y / s1) * s1 + rem(x, P, k + 1)))]


def toindex_tmpl(lp):
    ex = lp.ex
    r = radix(ex)
    rem, dig = digits(ex)
    ax = lp.arg(1)
    P, x = params(ax), lp.arg(0)
    out = suf_tmpl(lp)
    for cl, step in lp.counters:
        kk = z3.Int('dj')
        out.append(('digits inside', lambda st, cl=cl, kk=kk: z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < lp.c(st, cl)), z3.And(dig(x, P, kk) >= 0, dig(x, P, kk) < r.card(P, kk))), patterns=[dig(x, P, kk)])))
        out.append(('positive strides', lambda st, cl=cl: r.suf(P, lp.c(st, cl)) > 0))
        for a in lp.ints():
            if a.id() != cl.id():
                out.append(('remainder', lambda st, a=a, cl=cl: lp.c(st, a) == rem(x, P, lp.c(st, cl))))
        for a in lp.leaves:
            if a.sort == z3.ArraySort(z3.IntSort(), z3.IntSort()) and a.kind == 'env':
                k = z3.Int('dk')
                out.append(('digits so far', lambda st, a=a, cl=cl, k=k: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lp.c(st, cl)), z3.Select(lp.c(st, a), k) == dig(x, P, k)), patterns=[z3.Select(lp.c(st, a), k)] if lp.c(st, a).num_args() == 0 else [])))
    return out


def register_map(R):
    S = ['src/chunked_data_view/mapping/IndexMapper.cc']

    def post(c):
        ex = c.ex
        r = radix(ex)
        rem, dig = digits(ex)
        x, ax = c.pre[0], c.pre[1]
        P = ax.do('parameters')
        k = c.fresh('k')
        # the digit of an arbitrary parameter k
        return [('one sub-index per parameter', c.ret.n == P.n),
                ('each sub-index is the mixed-radix digit', z3.Implies(z3.And(k >= 0, k < P.n), c.ret[k] == dig(x, P.t, k))),
                ('each sub-index is inside its parameter', z3.Implies(z3.And(k >= 0, k < P.n), z3.And(c.ret[k] >= 0, c.ret[k] < r.card(P.t, k))))]
    R.add(Contract(NS + 'index_mapping::to_axis_parameter_index', nargs=2, src=S, tmpl=toindex_tmpl, ensures=post,
                   requires=lambda c: [('the axis has parameters', c.args[1].do('parameters').n > 0)],
                   throws=lambda c: [('the index is outside the axis', c.pre[0] >= c.pre[1].do('size'))]))


# ------------------------------------------------------------------------------------------------ boxes, buffers, chunks
def arrprod(ex):
    """aprod(S,j) = product of S[j..] for a sequence of numbers"""
    f = getattr(ex, '_aprod', None)
    if f is None:
        bt = ex.world.recn(NS + 'BoundingBox').t
        ty = [ft for l, ft in ex.world.fields(bt) if ex.T.kind(ft) == 'seq'][0]
        S = ex.T.sort(ty)

        def unf(s, j):
            v = V(ex, s, ty)
            return [z3.Implies(j >= v.n, f(s, j) == 1), z3.Implies(z3.And(j >= 0, j < v.n), f(s, j) == v[j] * f(s, j + 1))]
        f = ex._aprod = recfun.RecFun('aprod', [S, z3.IntSort()], z3.IntSort(), unf)
        ex._seqty = ty
    return f


def bufidx(ex):
    """bidx(axes,key,off,boff,bext,j): row-major position in the buffer contributed by dimensions j.."""
    f = getattr(ex, '_bidx', None)
    if f is None:
        ap = arrprod(ex)
        ty = ex._seqty
        S = ex.T.sort(ty)
        K = radix(ex).K
        fn = [g for g in ex.world.byq.get(NS + 'index_mapping::computeBufferIndex', [])][0]
        axty = fn.f.pt[0].strip()
        A = ex.T.sort(axty)

        def at(a, k, o, b, j):
            ax = V(ex, a, axty)[j]
            r = radix(ex)
            return r.idx(params(ax), k, z3.IntVal(0)) - V(ex, o, ty)[j] + V(ex, b, ty)[j]

        def unf(a, k, o, b, e, j):
            n = V(ex, a, axty).n
            return [z3.Implies(j >= n, f(a, k, o, b, e, j) == 0),
                    z3.Implies(z3.And(j >= 0, j < n), f(a, k, o, b, e, j) == at(a, k, o, b, j) * ap(e, j + 1) + f(a, k, o, b, e, j + 1))]
        f = ex._bidx = recfun.RecFun('bidx', [A, K, S, S, S, z3.IntSort()], z3.IntSort(), unf)
        f.at = at
    return f


def buf_tmpl(lp):
    ex = lp.ex
    a, k, o, b, e = [lp.arg(i).t for i in range(5)]
    ap, bi = arrprod(ex), bufidx(ex)
    out = []
    for cl, step in lp.counters:
        nxt = lambda st, cl=cl, step=step: lp.c(st, cl) + (1 if step < 0 else 0)
        for x in lp.ints():
            if x.id() == cl.id():
                continue
            if step < 0:
                out.append(('stride', lambda st, x=x, nxt=nxt: lp.c(st, x) == ap(e, nxt(st))))
                out.append(('partial index', lambda st, x=x, nxt=nxt: And(lp.c(st, x) == bi(a, k, o, b, e, nxt(st)), lp.c(st, x) >= 0, lp.c(st, x) < ap(e, nxt(st)))))
                out.append(('largest index', lambda st, x=x, nxt=nxt: lp.c(st, x) == ap(e, nxt(st)) - 1))
        if step > 0:
            i = z3.Int('bj')
            for x in lp.leaves:
                if x.sort == z3.ArraySort(z3.IntSort(), z3.IntSort()):
                    out.append(('local indices', lambda st, x=x, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl)), z3.And(z3.Select(lp.c(st, x), i) + lp.arg(3)[i] == bi.at(a, k, o, b, i), z3.Select(lp.c(st, x), i) >= 0, z3.Select(lp.c(st, x), i) + lp.arg(3)[i] < lp.arg(4)[i])),
                                                                                          patterns=[z3.Select(lp.c(st, x), i)] if lp.c(st, x).num_args() == 0 else [])))
            out.append(('extents positive', lambda st, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl)), lp.arg(4)[i] > 0), patterns=[lp.arg(4)[i]])))
    return out


def ok_fn(ex):
    """divides(P,C,k): one of the first k candidate splits accepts chunk size C"""
    f = getattr(ex, '_okfn', None)
    if f is None:
        r = radix(ex)
        I = z3.IntSort()

        def unf(P, C, k):
            n = r.P(P).n
            j = k - 1
            t = r.suf(P, n - j)
            t1 = r.suf(P, n - k)
            return [z3.Implies(k <= 0, Not(f(P, C, k))),
                    z3.Implies(z3.And(k >= 0, k < n), f(P, C, k + 1) == Or(f(P, C, k), z3.And(C % t1 == 0, r.card(P, n - 1 - k) % (C / t1) == 0))),
                    z3.Implies(z3.And(f(P, C, k + 1), k + 1 <= n), f(P, C, n)),
                    z3.Implies(z3.And(f(P, C, k), k <= n), f(P, C, n)),     # lemma 'divides is monotone'
                    z3.Implies(z3.And(k > 0, k <= n), f(P, C, k) == Or(f(P, C, j), z3.And(C % t == 0, r.card(P, n - 1 - j) % (C / t) == 0)))]
        f = ex._okfn = recfun.RecFun('divides', [r.S, I, I], z3.BoolSort(), unf)
    return f


def ok_tmpl(lp):
    ex = lp.ex
    r = radix(ex)
    P, C = params(lp.arg(0)), lp.arg(1)
    n = r.P(P).n
    f = ok_fn(ex)
    out = []
    for cl, step in lp.counters:
        out.append(('no split accepted so far', lambda st, cl=cl: Not(f(P, C, lp.c(st, cl)))))
        for x in lp.ints():
            if x.id() != cl.id():
                out.append(('trailing product', lambda st, x=x, cl=cl: And(lp.c(st, x) == r.suf(P, n - lp.c(st, cl)), lp.c(st, x) > 0)))
    return out


def entries_tmpl(lp):
    ex = lp.ex
    ap = arrprod(ex)
    lo, up = lp.this().do('lower'), lp.this().do('upper')
    f = boxprod(ex)
    out = []
    B = lp.this().t
    for cl, step in lp.counters:
        for x in lp.ints():
            if x.id() != cl.id():
                out.append(('product so far', lambda st, x=x, cl=cl: lp.c(st, x) == f(B, lp.c(st, cl))))
    return out


def boxprod(ex):
    """bprod(B,k) = product of (upper-lower+1) over the first k dimensions"""
    f = getattr(ex, '_bprod', None)
    if f is None:
        bt = ex.world.recn(NS + 'BoundingBox').t

        def unf(B, k):
            v = V(ex, B, bt)
            lo, up = v.do('lower'), v.do('upper')
            return [z3.Implies(k <= 0, f(B, k) == 1), z3.Implies(z3.And(k > 0, k <= lo.n), f(B, k) == f(B, k - 1) * (up[k - 1] - lo[k - 1] + 1))]
        f = ex._bprod = recfun.RecFun('bprod', [ex.T.sort(bt), z3.IntSort()], z3.IntSort(), unf)
    return f


def register_more(R):
    BB = NS + 'BoundingBox::'
    lu = lambda b: (b.do('lower'), b.do('upper'))

    def extent_post(c):
        l, u = lu(c.this)
        return [('one extent per dimension', c.ret.n == l.n), ('upper - lower + 1', forall(c, l.n, lambda i: c.ret[i] == u[i] - l[i] + 1))]
    R.add(Contract(BB + 'extent', nargs=0, src=SRC[:1], ensures=extent_post))
    R.add(Contract(BB + 'entries', nargs=0, src=SRC[:1], tmpl=entries_tmpl, ensures=lambda c: [('number of lattice points', c.ret == boxprod(c.ex)(c.this.t, c.this.do('lower').n))]))

    def drop_post(c):
        (l, u), (rl, ru) = lu(c.this), lu(c.ret)
        return [('one dimension fewer', And(rl.n == l.n - 1, ru.n == l.n - 1)), ('others kept', forall(c, l.n - 1, lambda i: And(rl[i] == l[i], ru[i] == u[i])))]
    R.add(Contract(BB + 'dropLastDimension', nargs=0, src=SRC[:1], requires=lambda c: [('not the zero-dimensional box', c.this.do('lower').n > 0)], ensures=drop_post))

    S = ['src/chunked_data_view/mapping/IndexMapper.cc', 'src/chunked_data_view/Axis.cc']

    def cbi_ok(c):
        ax, key, off, bo, be = c.pre
        bi = bufidx(c.ex)
        i = z3.Int('ci?%d' % c.ex.key('q'))
        n = ax.n
        km = keymap(c.ex, key.t)
        at = bi.at(ax.t, key.t, off.t, bo.t, i)
        return ax, key, off, bo, be, And(off.n == n, bo.n == n, be.n == n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), And(be[i] > 0, bo[i] < be[i], at - bo[i] >= 0, at < be[i]))))

    def axes_found(c):
        """every axis finds its parameters in the key (the case Axis::index accepts)"""
        r = radix(c.ex)
        ax, key = c.pre[0], c.pre[1]
        i, j = z3.Int('ai?%d' % c.ex.key('q')), z3.Int('aj?%d' % c.ex.key('q'))
        km = keymap(c.ex, key.t)
        P = ax[i].do('parameters')
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < ax.n, j >= 0, j < P.n), And(km.has(P[j].do('name')), r.pos(P.t, key.t, j) < P[j].do('values').n)))

    def cbi_post(c):
        ax, key, off, bo, be, ok = cbi_ok(c)
        bi, ap = bufidx(c.ex), arrprod(c.ex)
        return [('row-major position of the field in the buffer', c.ret == bi(ax.t, key.t, off.t, bo.t, be.t, z3.IntVal(0))),
                ('inside the buffer', And(c.ret >= 0, c.ret < ap(be.t, z3.IntVal(0))))]
    R.add(Contract(NS + 'index_mapping::computeBufferIndex', nargs=5, src=S, tmpl=buf_tmpl, ensures=cbi_post,
                   throws=lambda c: [('an index, offset or extent does not fit, or the key does not match', Not(And(cbi_ok(c)[5], axes_found(c))))]))

    M = ['src/chunked_data_view/mapping/AxisMapper.cc']

    def pos_cards(c):
        r = radix(c.ex)
        P = c.args[0].do('parameters')
        k = z3.Int('pc?%d' % c.ex.key('q'))
        return [('every parameter has at least one value', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < P.n), P[k].do('values').n > 0)))]
    R.add(Contract(NS + 'AxisMapper::chunkSizeCheck', nargs=2, src=M, tmpl=ok_tmpl, requires=pos_cards,
                   ensures=lambda c: [('accepts exactly trailing product times a divisor of the next cardinality', c.ret == ok_fn(c.ex)(params(c.pre[0]), c.pre[1], c.pre[0].do('parameters').n)), ('chunk size is positive', c.pre[1] > 0)],
                   throws=lambda c: [('the chunk size is zero', c.pre[1] == 0)]))

    def ext_post(c):
        a, b = c.this.do('extension'), c.args[0].do('extension')
        return [('true exactly when all extents but the extension axis agree', c.ret == And(a.n == b.n, forall(c, a.n, lambda i: Or(i == c.args[1], a[i] == b[i]))))]
    R.add(Contract(NS + 'ViewPart::extensibleWith', nargs=2, src=SRC[:1], ensures=ext_post))


def lemmas(ex):
    """induction steps of the lemmas used as definitional instances above"""
    r = radix(ex)
    f = ok_fn(ex)
    P, C, k = z3.Const('P', r.S), z3.Int('C'), z3.Int('k')
    n = r.P(P).n
    t = r.suf(P, n - k)
    # unfolding f(k+1) gives f(k) or ...; hence f(k) -> f(k+1); with the induction hypothesis f(k+1) -> f(n)
    d = f(P, C, k + 1) == Or(f(P, C, k), z3.And(C % t == 0, r.card(P, n - 1 - k) % (C / t) == 0))
    return [('divides is monotone, induction step', [k >= 0, k < n, d, z3.Implies(f(P, C, k + 1), f(P, C, n))], z3.Implies(f(P, C, k), f(P, C, n)))]
