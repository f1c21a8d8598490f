"""Contracts of the axes of an index: which keys and requests an index may hold."""
import z3
import lib
from contract import Contract, V, pointed
from execu import And, Or, Not
from sorts import STR, INT
from keys import mp, nm, q, in_names
import keys

SRC = ['src/fdb5/database/IndexAxis.cc', 'src/fdb5/database/Index.cc', 'src/fdb5/database/Key.cc', 'src/fdb5/database/BaseKey.cc']
A = 'fdb5::IndexAxis::'
I = 'fdb5::IndexBase::'


def axis(v):
    return v.field(lambda l, t: v.ex.T.kind(t) == 'map')


def vals(v, k, old=False):
    """set of values of axis k"""
    m = axis(v)
    return pointed(v.ex, m[k], m.ty.args[1].args[0], old)


def rvals(ex, req, kw, strlist):
    return V(ex, ex.uf('ext_metkit::mars::MarsRequest::values(const std::string &, bool) const', [req, kw, z3.BoolVal(True)], strlist), strlist)


def register(R):
    keys.register(R)
    for c in R.list:
        c.verify_ = False
    S = SRC[:1]
    # DenseSet<string> argument of matchValues
    def matchvalues(c):
        m, s = mp(c.this), c.args[1]
        return 'the key has the keyword and its value is among the values', And(m.has(c.args[0]), s.has(m[c.args[0]]))
    R.add(Contract('fdb5::Key::matchValues', nargs=2, src=SRC[2:3], value=matchvalues))

    def contains(c):
        a, m = axis(c.this), mp(c.args[0])
        k = q(c)
        return 'every axis holds the value of the key', z3.ForAll([k], z3.Implies(a.has(k), And(m.has(k), vals(c.this, k).has(m[k]))))
    R.add(Contract(A + 'contains', nargs=1, src=S, value=contains))

    def cpartial(c):
        a, m = axis(c.this), mp(c.args[0])
        k = q(c)
        return 'every keyword of the key is an axis that holds its value', z3.ForAll([k], z3.Implies(m.has(k), And(a.has(k), vals(c.this, k).has(m[k]))))
    R.add(Contract(A + 'containsPartial', nargs=1, src=S, value=cpartial))

    def pmatch(c):
        a = axis(c.this)
        k, i = q(c), q(c, INT, 'i')
        s = rvals(c.ex, c.args[0], k, strlist(c))
        return 'no axis excludes all values requested for it', z3.ForAll([k], z3.Implies(a.has(k), Or(s.n == 0, z3.Exists([i], z3.And(i >= 0, i < s.n, vals(c.this, k).has(s[i]))))))
    R.add(Contract(A + 'partialMatch', nargs=1, src=S, value=pmatch, tmpl=pmatch_tmpl))

    R.add(Contract(A + 'has', nargs=1, src=S, ensures=lambda c: [('the keyword is an axis', c.ret == axis(c.this).has(c.args[0]))]))
    R.add(Contract(A + 'dirty', nargs=0, src=S, ensures=lambda c: [('the flag', c.ret == c.this.dirty)]))
    R.add(Contract(A + 'clean', nargs=0, src=S, modifies=('this',), ensures=lambda c: [('not dirty', Not(c.this.dirty)), ('axes kept', c.this.axis.t == c.old.axis.t)]))

    def insert_vals(c):
        a, b = axis(c.this), axis(c.old)
        k, v, i = q(c), q(c, STR, 'v'), q(c, INT, 'i')
        s = c.pre[1]
        n, o = vals(c.this, c.pre[0]), vals(c.old, c.pre[0], old=True)
        return [('the axis is there', z3.ForAll([k], a.has(k) == Or(b.has(k), k == c.pre[0]))),
                ('it holds the new values', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), n.has(s[i])))),
                ('it keeps its old values', z3.ForAll([v], z3.Implies(And(b.has(c.pre[0]), b[c.pre[0]] != 0, o.has(v)), n.has(v)))),
                ('it holds nothing else', z3.ForAll([v], z3.Implies(n.has(v), Or(And(b.has(c.pre[0]), b[c.pre[0]] != 0, o.has(v)), in_names(s, v))))),
                ('marked dirty', c.this.dirty)]
    R.add(Contract(A + 'insert', nargs=1, src=S, modifies=('this', 'heap:obj:eckit::DenseSet<std::string>'), tmpl=ins_key_tmpl, throws=lambda c: [('read only', c.old.readOnly)],
                   requires=lambda c: [('the axes own their values', ptrs_ok(c.ex, c.this, c.ex.st))], ensures=ins_key_post))
    R.add(Contract(A + 'insert', nargs=2, src=S, modifies=('this', 'heap:obj:eckit::DenseSet<std::string>'), tmpl=insvals_tmpl, throws=lambda c: [('read only', c.old.readOnly)], ensures=insert_vals))
    register2(R)


def ptrs_ok(ex, v, st):
    """each axis owns its set of values: no two axes share one, and none is newer than what was allocated"""
    a = axis(v)
    k, l = z3.Const('po_k', STR), z3.Const('po_l', STR)
    al = st.ghost.get('alloc')
    return And(z3.ForAll([k, l], z3.Implies(And(a.has(k), a.has(l), k != l, a[k] != 0), a[k] != a[l])), z3.ForAll([k], z3.Implies(a.has(k), a[k] <= al)))


def ins_key_tmpl(lp):
    ex = lp.ex
    m = mp(lp.arg(0))
    idx = ex.order_fns(STR)[2]
    k, v = z3.Const('ik_k', STR), z3.Const('ik_v', STR)
    t = axis(lp.this()).ty.args[1].args[0]
    b = axis(lp.this_at(lp.entry))
    out = []
    for cl, step in lp.counters:
        done = lambda st, k, cl=cl: And(m.has(k), idx(m.hasarr, k) < lp.c(st, cl))
        A = lambda st: axis(lp.this_at(st))
        out += [('axes so far', lambda st, done=done: z3.ForAll([k], A(st).has(k) == Or(b.has(k), done(st, k)))),
                ('later axes', lambda st, done=done: z3.ForAll([k], z3.Implies(And(b.has(k), Not(done(st, k))), A(st)[k] == b[k]))),
                ('owners', lambda st, done=done: z3.ForAll([k], z3.Implies(done(st, k), And(A(st)[k] != 0, z3.Implies(And(b.has(k), b[k] != 0), A(st)[k] == b[k]))))),
                ('contents', lambda st, done=done: z3.ForAll([k, v], z3.Implies(And(A(st).has(k), A(st)[k] != 0), lp.pointed(st, A(st)[k], t).has(v) == Or(And(b.has(k), b[k] != 0, lp.pointed(lp.entry, b[k], t).has(v)), And(done(st, k), m[k] == v))))),
                ('dirty once an axis was touched', lambda st, cl=cl: lp.this_at(st).dirty == Or(lp.this_at(lp.entry).dirty, lp.c(st, cl) > 0)),
                ('ownership', lambda st: ptrs_ok(ex, lp.this_at(st), st))]
    return out


def ins_key_post(c):
    a, b, m = axis(c.this), axis(c.old), mp(c.pre[0])
    k, v = z3.Const('ik_k', STR), z3.Const('ik_v', STR)
    t = a.ty.args[1].args[0]
    there = lambda k: And(b.has(k), b[k] != 0)
    return [('every keyword of the key is an axis, the others are kept', z3.ForAll([k], a.has(k) == Or(b.has(k), m.has(k)))),
            ('each axis holds its old values and the value of the key, nothing else', z3.ForAll([k, v], z3.Implies(And(a.has(k), a[k] != 0), pointed(c.ex, a[k], t).has(v) == Or(And(there(k), pointed(c.ex, b[k], t, True).has(v)), And(m.has(k), m[k] == v))))),
            ('axes of the key have values', z3.ForAll([k], z3.Implies(m.has(k), a[k] != 0))),
            ('the axes still own their values', ptrs_ok(c.ex, c.this, c.ex.st)),
            ('an index that took the key may contain it', z3.Implies(z3.ForAll([k], z3.Implies(b.has(k), And(b[k] != 0, m.has(k)))), z3.ForAll([k], z3.Implies(a.has(k), And(m.has(k), pointed(c.ex, a[k], t).has(m[k])))))),
            ('marked dirty unless the key is empty', c.this.dirty == Or(c.old.dirty, c.ex.card(m.hasarr) > 0))]


def same_axes(c):
    a, b = axis(c.this), axis(c.args[0])
    k = q(c)
    return And(a.n == b.n, z3.ForAll([k], z3.Implies(a.has(k), And(b.has(k), vals(c.this, k).hasarr == vals(c.args[0], k).hasarr))))


def register2(R):
    S = SRC[:1]
    R.add(Contract(A + 'merge', nargs=1, src=S, modifies=('this', 'heap:obj:eckit::DenseSet<std::string>'), tmpl=merge_tmpl, throws=lambda c: [('read only', c.old.readOnly)],
                   requires=lambda c: [('the axes own their values', ptrs_ok(c.ex, c.this, c.ex.st)), ('axes have values', And(nonnull(axis(c.this)), nonnull(axis(c.args[0])))), ('the other index does not share them', apart(axis(c.this), axis(c.args[0]), c.ex))], ensures=merge_post))
    R.add(Contract(A + 'map', nargs=0, src=S, tmpl=map_tmpl, ensures=lambda c: [('a copy of every axis', (lambda k: z3.ForAll([k], And(c.ret.has(k) == axis(c.this).has(k), z3.Implies(axis(c.this).has(k), c.ret[k].hasarr == vals(c.this, k).hasarr))))(q(c)))]))
    R.add(Contract(A + 'operator==', nargs=1, src=S, value=lambda c: ('the same axes with the same values', same_axes(c))))
    R.add(Contract(A + 'operator!=', nargs=1, src=S, value=lambda c: ('not equal', Not(same_axes(c)))))
    R.add(Contract(A + 'wipe', nargs=0, src=S, modifies=('this',), throws=lambda c: [('read only', c.old.readOnly)], ensures=lambda c: [('no axes', (lambda k: z3.ForAll([k], Not(axis(c.this).has(k))))(q(c))), ('not dirty', Not(c.this.dirty))]))
    R.add(Contract(A + 'values', nargs=1, src=S, throws=lambda c: [('there are axes but not this one', And(axis(c.old).n > 0, Not(axis(c.old).has(c.pre[0]))))],
                   ensures=lambda c: [('the values of the axis', z3.Implies(axis(c.this).has(c.pre[0]), c.ret.hasarr == vals(c.this, c.pre[0]).hasarr))]))
    SI = SRC[1:2]
    R.add(Contract(I + 'partialMatch', nargs=2, src=SI, value=lambda c: ('neither the key of the index nor an axis is excluded by the request', pm(c))))
    R.add(Contract(I + 'add', nargs=2, trusted='virtual: storing the field location does not touch the axes', modifies=()))
    R.add(Contract(I + 'put', nargs=2, src=SI, modifies=('this', 'heap:obj:eckit::DenseSet<std::string>'), throws='any', requires=lambda c: [('the axes own their values', ptrs_ok(c.ex, c.this.axes, c.ex.st)), ('writable', Not(c.this.axes.readOnly))],
                   ensures=lambda c: [(n, g) for n, g in ins_key_post(sub(c, lambda x: x.axes))]))
    R.add(Contract(I + 'mayContain', nargs=1, src=SI, value=lambda c: ('every axis holds the value of the key', axes_hold(c.this.axes, mp(c.args[0]), c))))
    R.add(Contract(I + 'mayContainPartial', nargs=1, src=SI, value=lambda c: ('every keyword of the key is an axis holding its value', axes_hold_partial(c.this.axes, mp(c.args[0]), c))))


def sub(c, f):
    from contract import Ctx
    d = Ctx(c.ex)
    d.this, d.old, d.pre, d.args = f(c.this), f(c.old), c.pre, c.args
    return d


def pm(c):
    k = q(c)
    lt = strlist(c)
    x = c.this.axes
    kk = q(c)
    m = mp(c.this.key)

    def one(k):
        s = rvals(c.ex, c.args[0], k, lt)
        return Or(s.n == 0, in_names(s, m[k]))
    i = q(c, INT, 'i')

    def some(k):
        s = rvals(c.ex, c.args[1], k, lt)
        return Or(s.n == 0, z3.Exists([i], z3.And(i >= 0, i < s.n, vals(x, k).has(s[i]))))
    return And(z3.ForAll([kk], z3.Implies(m.has(kk), one(kk))), z3.ForAll([k], z3.Implies(axis(x).has(k), some(k))))


def axes_hold(x, m, c):
    k = q(c)
    return z3.ForAll([k], z3.Implies(axis(x).has(k), And(m.has(k), vals(x, k).has(m[k]))))


def axes_hold_partial(x, m, c):
    k = q(c)
    return z3.ForAll([k], z3.Implies(m.has(k), And(axis(x).has(k), vals(x, k).has(m[k]))))


def strlist(c):
    """the type of a list of strings"""
    return c.ex.world.func('fdb5::BaseKey::names() const').f.rt.strip()


def merge_tmpl(lp):
    ex = lp.ex
    o = axis(lp.arg(0))
    idx = ex.order_fns(STR)[2]
    k, v = z3.Const('mk_k', STR), z3.Const('mk_v', STR)
    t = o.ty.args[1].args[0]
    b = axis(lp.this_at(lp.entry))
    out = []
    for cl, step in lp.counters:
        done = lambda st, k, cl=cl: And(o.has(k), idx(o.hasarr, k) < lp.c(st, cl))
        A = lambda st: axis(lp.this_at(st))
        out += [('axes so far', lambda st, done=done: z3.ForAll([k], A(st).has(k) == Or(b.has(k), done(st, k)))),
                ('kept', lambda st: z3.ForAll([k], z3.Implies(b.has(k), A(st)[k] == b[k]))),
                ('fresh', lambda st: z3.ForAll([k], z3.Implies(And(A(st).has(k), Not(b.has(k))), A(st)[k] > lp.entry.ghost['alloc']))),
                ('sources', lambda st: z3.ForAll([k], z3.Implies(o.has(k), lp.pointed(st, o[k], t).hasarr == lp.pointed(lp.entry, o[k], t).hasarr))),
                ('contents', lambda st, done=done: z3.ForAll([k, v], z3.Implies(A(st).has(k), lp.pointed(st, A(st)[k], t).has(v) == Or(And(b.has(k), lp.pointed(lp.entry, b[k], t).has(v)), And(done(st, k), lp.pointed(lp.entry, o[k], t).has(v)))))),
                ('ownership', lambda st: ptrs_ok(ex, lp.this_at(st), st))]
    return out


def nonnull(a):
    k = z3.Const('nn_k', STR)
    return z3.ForAll([k], z3.Implies(a.has(k), a[k] != 0))


def apart(a, o, ex):
    """no axis shares its values with the other index"""
    k, l = z3.Const('ap_k', STR), z3.Const('ap_l', STR)
    return And(z3.ForAll([k, l], z3.Implies(And(a.has(k), o.has(l)), a[k] != o[l])), z3.ForAll([l], z3.Implies(o.has(l), o[l] <= ex.st.ghost['alloc'])))


def merge_post(c):
    a, b, o = axis(c.this), axis(c.old), axis(c.pre[0])
    k, v = z3.Const('mk_k', STR), z3.Const('mk_v', STR)
    t = a.ty.args[1].args[0]
    return [('the axes of both', z3.ForAll([k], a.has(k) == Or(b.has(k), o.has(k)))),
            ('each holds the values of both', z3.ForAll([k, v], z3.Implies(a.has(k), pointed(c.ex, a[k], t).has(v) == Or(And(b.has(k), pointed(c.ex, b[k], t, True).has(v)), And(o.has(k), pointed(c.ex, o[k], t, True).has(v)))))),
            ('the axes still own their values', ptrs_ok(c.ex, c.this, c.ex.st))]


def map_tmpl(lp):
    ex = lp.ex
    a = axis(lp.this())
    idx = ex.order_fns(STR)[2]
    k = z3.Const('mp_k', STR)
    t = a.ty.args[1].args[0]
    out = []
    for cl, step in lp.counters:
        done = lambda st, k, cl=cl: And(a.has(k), idx(a.hasarr, k) < lp.c(st, cl))
        for x in lp.leaves:
            if x.sort == z3.ArraySort(STR, z3.BoolSort()):
                out.append(('axes so far', lambda st, x=x, done=done: z3.ForAll([k], z3.Select(lp.c(st, x), k) == done(st, k))))
            if x.sort.kind() == z3.Z3_ARRAY_SORT and x.sort.domain() == STR and x.sort.range() == ex.T.sort(t):
                out.append(('copies', lambda st, x=x, done=done: z3.ForAll([k], z3.Implies(done(st, k), z3.Select(lp.c(st, x), k) == vals(lp.this(), k).t))))
    return out


def some_value(ex, this, req, k, lt):
    s = rvals(ex, req, k, lt)
    i = z3.Int('pm_i')
    return Or(s.n == 0, z3.Exists([i], z3.And(i >= 0, i < s.n, vals(this, k).has(s[i]))))


def pmatch_tmpl(lp):
    ex = lp.ex
    this = lp.this()
    has = axis(this).hasarr
    nth = ex.order_fns(STR)[1]
    lt = ex.world.func('fdb5::BaseKey::names() const').f.rt.strip()
    j = z3.Int('pm_j')
    out = []
    for cl, step in lp.counters:
        out.append(('axes so far', lambda st, cl=cl: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < lp.c(st, cl)), some_value(ex, this, lp.arg(0), nth(has, j), lt)), patterns=[nth(has, j)])))
    return out


def insvals_tmpl(lp):
    """the axis holds what it held at the start of the loop and the values so far; other objects are untouched"""
    ex = lp.ex
    lst = lp.arg(1)
    v, r = z3.Const('iv_v', STR), z3.Int('iv_r')
    out = []

    def cell(st):
        m = axis(lp.this_at(st))
        return m[lp.arg(0)], m.ty.args[1].args[0]
    for cl, step in lp.counters:
        def inv(st, cl=cl):
            p, t = cell(st)
            return z3.ForAll([v], lp.pointed(st, p, t).has(v) == Or(lp.pointed(lp.entry, p, t).has(v), in_names(lst, v, lp.c(st, cl))))

        def others(st):
            p, t = cell(st)
            return z3.ForAll([r], z3.Implies(r != p, lp.pointed(st, r, t).hasarr == lp.pointed(lp.entry, r, t).hasarr))
        out += [('values so far', inv), ('other objects', others)]
    return out
