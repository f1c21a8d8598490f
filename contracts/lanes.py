"""Contracts of the selecting FDB: which lane a field goes to and which lanes a request reaches."""
import z3
import lib
from contract import Contract, V, pointed, raw
from execu import And, Or, Not, Ite
from sorts import STR, INT, BOOL, dt_of
from archive import ref, ghost, init, SETS

SRC = ['src/fdb5/rules/SelectMatcher.cc', 'src/fdb5/api/SelectFDB.cc']
T = 'fdb5::'


def what(x):
    """the values a matcher looks at: a request, or the key behind an accessor"""
    t = raw(x)
    d = dt_of(t)
    if d is not None and len(d.fields) == 1:
        return what(d.get(t, 0))
    return t


def register(R):
    M = SRC[:1]
    S = SRC[1:]

    def mm(c, sel, vals, pol):
        t = what(vals)
        return z3.Function('matcher_matches_' + str(t.sort()), raw(sel).sort(), t.sort(), INT, BOOL)(raw(sel), t, pol)

    def lane_matches(c, m, vals, pol):
        i = c.fresh('ex')
        ex = m.excludes
        return And(mm(c, m.select, vals, pol), Not(z3.Exists([i], And(0 <= i, i < ex.n, mm(c, ex[i], vals, z3.IntVal(1))))))
    R.add(Contract('metkit::mars::Matcher::match', nargs=2, trusted='metkit: whether the values match the expression; no state', ensures=lambda c: [('m', c.ret == mm(c, c.this, c.args[0], c.args[1]))]))
    E = lambda c: [('the select expression matches and no exclude expression does, on the values given', c.ret == lane_matches(c, c.this, c.args[0], c.args[1]))]
    R.add(Contract(T + 'SelectMatcher::matchInner', nargs=2, src=M, ensures=E))
    R.add(Contract(T + 'SelectMatcher::match', nargs=2, src=M, ensures=E))
    R.add(Contract(T + 'SelectFDB::FDBLane::matches', nargs=2, src=S, ensures=lambda c: [('as the matcher of the lane says', c.ret == lane_matches(c, c.this.matcher, c.args[0], c.args[1]))]))
    R.add(Contract(T + 'FDBFactory::build', trusted='creates an FDB', ensures=lambda c: [('not null', raw(c.ret) != 0)]))
    def oflane(c, m):
        """laneof: for an FDB, the matcher of the lane it was got from"""
        return ghost(c, 'laneof', z3.ArraySort(INT, raw(m).sort()))

    def got(c):
        lo, m = c.gold['laneof'], raw(c.this.matcher)
        h = c.fresh('h')
        return [('the FDB of this lane', And(c.ret == c.this.fdb, c.ret != 0)),
                ('created once', z3.Implies(c.old.fdb != 0, c.this.fdb == c.old.fdb)),
                ('same matcher', m == raw(c.old.matcher))]

    def got_use(c):
        # ghost code at the end of get: the FDB is this lane's
        c.ex.st.ghost['laneof'] = z3.Store(c.gold['laneof'], c.ret, raw(c.this.matcher))
        return got(c)

    def get_ini(c):
        oflane(c, c.this.matcher)
        return []
    R.add(Contract(T + 'SelectFDB::FDBLane::get', nargs=0, src=S, modifies=('this',), refret=True, requires=get_ini, ensures=got_use, ghosts=('laneof',)))

    # afdb, akey, adata, alen: the last field handed to an FDB; nfield: how many were
    G = dict(nfield=INT, afdb=INT, akey=None, adata=INT, alen=INT, flushed=SETS)

    def arch(c):
        gh = c.ex.st.ghost
        gh['nfield'] = ghost(c, 'nfield', INT) + 1
        gh['afdb'] = ref(c)
        gh['akey'], gh['adata'], gh['alen'] = raw(c.args[0]), raw(c.args[1]), raw(c.args[2])
        return []
    R.add(Contract(T + 'FDBBase::archive', nargs=3, trusted='virtual: takes the field', ensures=arch))

    def ini(c):
        oflane(c, c.this.subFdbs[z3.IntVal(0)].matcher)
        for n in ('nfield', 'afdb', 'adata', 'alen'):
            ghost(c, n, INT)
        ghost(c, 'akey', raw(c.args[0]).sort())
        return []

    def first(c, v):
        """the first lane that accepts the key"""
        k = c.args[0]
        W = z3.Function('lane_accepts', v.subFdbs[z3.Int('x')].t.sort(), raw(k).sort(), BOOL)
        return lambda i: lane_matches(c, v.subFdbs[i].matcher, k, z3.IntVal(1))

    def post(c):
        i, j = c.fresh('i'), c.fresh('j')
        old, new = c.old.subFdbs, c.this.subFdbs
        m = first(c, c.old)
        gh, go = c.ex.st.ghost, c.gold
        return [('the field is handed over once', gh['nfield'] == go['nfield'] + 1),
                ('it is the field given', And(gh['akey'] == raw(c.args[0]), gh['adata'] == raw(c.args[1]), gh['alen'] == c.args[2])),
                ('to the first lane that accepts its key', z3.Exists([i], And(0 <= i, i < old.n, m(i), z3.ForAll([j], z3.Implies(And(0 <= j, j < i), Not(m(j)))), gh['afdb'] == new[i].fdb)))]

    def thr(c):
        j = c.fresh('j')
        m = first(c, c.old)
        return [('no lane accepts the key', z3.ForAll([j], z3.Implies(And(0 <= j, j < c.old.subFdbs.n), Not(m(j))))),
                ('nothing is handed over', c.ex.st.ghost['nfield'] == c.gold['nfield'])]

    def atmpl(lp):
        v = lp.this_at(lp.entry).subFdbs
        q = lp.ex.key('q')
        k = z3.Int('k?%d' % q)

        class C:
            ex = lp.ex

            def fresh(self, n):
                return z3.Int('%s?%d' % (n, q))
        m = lambda i: lane_matches(C(), v[i].matcher, lp.arg(0), z3.IntVal(1))
        return [('no lane so far accepts the key', lambda st, cl=cl: z3.ForAll([k], z3.Implies(And(0 <= k, k < lp.c(st, cl)), Not(m(k))))) for cl, step in lp.counters]
    R.add(Contract(T + 'SelectFDB::archive', nargs=3, src=S, modifies=('this',), requires=ini, ghosts=('nfield', 'laneof', 'afdb', 'akey', 'adata', 'alen'), tmpl=atmpl, ensures=post, throws=thr))

    def fl(c):
        c.ex.st.ghost['flushed'] = z3.Store(ghost(c, 'flushed', SETS), ref(c), z3.BoolVal(True))
        return []
    R.add(Contract(T + 'FDBBase::flush', nargs=0, trusted='virtual: makes everything archived durable and visible', ensures=fl))

    def lfl(c):
        h = c.fresh('h')
        new, old = c.ex.st.ghost['flushed'], c.gold['flushed']
        return [('the FDB of the lane is flushed when there is one', z3.Implies(c.this.fdb != 0, z3.Select(new, c.this.fdb))), ('flushes are not undone', z3.ForAll([h], z3.Implies(z3.Select(old, h), z3.Select(new, h))))]
    R.add(Contract(T + 'SelectFDB::FDBLane::flush', nargs=0, src=S, requires=init(flushed=SETS), ghosts=('flushed',), ensures=lfl))

    def ftmpl(lp):
        v = lp.this_at(lp.entry).subFdbs
        k = z3.Int('k?%d' % lp.ex.key('q'))
        return [('lanes so far', lambda st, cl=cl: z3.ForAll([k], z3.Implies(And(0 <= k, k < lp.c(st, cl), v[k].fdb != 0), z3.Select(st.ghost['flushed'], v[k].fdb)))) for cl, step in lp.counters]

    def fpost(c):
        k = c.fresh('k')
        v = c.this.subFdbs
        return [('every lane that has an FDB is flushed', z3.ForAll([k], z3.Implies(And(0 <= k, k < v.n, v[k].fdb != 0), z3.Select(c.ex.st.ghost['flushed'], v[k].fdb)))), ('the lanes are kept', v.t == c.old.subFdbs.t)]
    R.add(Contract(T + 'SelectFDB::flush', nargs=0, src=S, modifies=('this',), requires=init(flushed=SETS), ghosts=('flushed',), tmpl=ftmpl, ensures=fpost))

    # asked: the FDBs that were asked; nask: how many questions; the answers of an aggregate are all the answers
    class Q:
        def __init__(self, ex):
            self.ex, self.q = ex, ex.key('q')

        def fresh(self, n):
            return z3.Int('%s?%d' % (n, self.q))

    MT = [None]

    def ini_ask(c):
        MT[0] = c.this.subFdbs[z3.IntVal(0)].matcher.ty
        oflane(c, c.this.subFdbs[z3.IntVal(0)].matcher)
        for n, so in (('asked', SETS), ('nask', INT)):
            ghost(c, n, so)
        c.ex.st.ghost['nask0'] = ghost(c, 'nask', INT)
        return []

    def op(name, nargs, sel, what_):
        def ask(c):
            gh = c.ex.st.ghost
            gh['asked'] = z3.Store(ghost(c, 'asked', SETS), ref(c), z3.BoolVal(True))
            gh['nask'] = ghost(c, 'nask', INT) + 1
            return []

        def samereq(c):
            a = [raw(x) for x in c.args]
            lo = c.ex.st.ghost['laneof']
            r = V(c.ex, z3.Const('arg0', a[0].sort()), c.args[0].ty) if isinstance(c.args[0], V) else z3.Const('arg0', a[0].sort())
            return [('an FDB is asked only when its lane accepts the request', sel(c, V(c.ex, z3.Select(lo, ref(c)), MT[0]), r)), ('the question is passed on as it was asked', And(*[x == z3.Const('arg%d' % i, x.sort()) for i, x in enumerate(a)]))]
        R.add(Contract(T + 'FDBBase::' + name, nargs=nargs, trusted='virtual: %s in one FDB' % what_, requires=samereq, ensures=ask))

        def reach(c, v, r):
            return lambda i: sel(c, v.subFdbs[i].matcher, r)

        def tm(lp):
            c = Q(lp.ex)
            k, h = c.fresh('k'), c.fresh('h')
            v0 = lp.this_at(lp.entry)
            m = reach(c, v0, lp.arg(0))
            cur = lambda st: lp.this_at(st).subFdbs
            a = lambda st, x: z3.Select(st.ghost['asked'], x)
            out = []
            for cl, step in lp.counters:
                out.append(('lanes that match were asked', lambda st, cl=cl: z3.ForAll([k], z3.Implies(And(0 <= k, k < lp.c(st, cl), m(k)), And(cur(st)[k].fdb != 0, a(st, cur(st)[k].fdb))))))
                out.append(('lanes to come are as before', lambda st, cl=cl: z3.ForAll([k], z3.Implies(And(lp.c(st, cl) <= k, k < cur(st).n), cur(st)[k].t == v0.subFdbs[k].t))))
            out.append(('as many lanes', lambda st: cur(st).n == v0.subFdbs.n))
            for l in lp.ints():
                if l.kind == 'env':
                    out.append(('one answer for each question', lambda st, l=l: lp.c(st, l) - lp.e(l) == st.ghost['nask'] - lp.entry.ghost['nask']))
            return out

        def post(c):
            k = c.fresh('k')
            m = reach(c, c.old, c.args[0])
            new = c.this.subFdbs
            gn = c.ex.st.ghost['asked']
            return [('every lane the request reaches is asked', z3.ForAll([k], z3.Implies(And(0 <= k, k < new.n, m(k)), And(new[k].fdb != 0, z3.Select(gn, new[k].fdb))))),
                    ('as many lanes', new.n == c.old.subFdbs.n)]
        R.add(Contract(T + 'SelectFDB::' + name, nargs=nargs, src=S, modifies=('this',), requires=ini_ask, ghosts=('asked', 'nask', 'laneof'), tmpl=tm, ensures=post))
    R.add(Contract(T + 'APIAggregateIterator::<ctor>', nargs=1, trusted='the constructor keeps the iterators it is given', requires=lambda c: [('one answer for each question', c.args[0].n == c.ex.st.ghost['nask'] - c.ex.st.ghost['nask0'])]))
    ENS = []
    one = lambda c, m, r: lane_matches(c, m, r, z3.IntVal(1))
    op('inspect', 1, one, 'the fields a request names')

    def anyl(c, m, r):
        return Or(r.do('all'), lane_matches(c, m, r.do('request'), z3.IntVal(0)))
    for nm, n, w in (('list', 2, 'listing'), ('dump', 2, 'dumping'), ('status', 1, 'the status'), ('wipe', 4, 'wiping'), ('purge', 3, 'purging'), ('stats', 1, 'statistics'), ('control', 3, 'locking'), ('axesIterator', 2, 'the axes')):
        op(nm, n, anyl, w)

    def mk(c, expr, pol):
        so = c.ex.T.sort(c.ret.ty) if isinstance(c.ret, V) else raw(c.ret).sort()
        return z3.Function('matcher_of', STR, INT, so)(expr, pol)
    R.add(Contract('metkit::mars::Matcher::<ctor>', nargs=2, sig='std::string', trusted='metkit: the matcher of an expression', ensures=lambda c: [('m', raw(c.ret) == mk(c, c.args[0], c.args[1]))]))
    def S_of(cf):
        return z3.Function('config_string', cf.sort(), STR, STR, STR)

    def has_of(cf):
        return z3.Function('config_has', cf.sort(), STR, BOOL)
    from sorts import seq_dt
    SS = seq_dt(STR)

    def vec_of(cf):
        return z3.Function('config_strings', cf.sort(), STR, SS.sort)
    for cl in ('eckit::Configuration::', 'eckit::Parametrisation::', 'eckit::LocalConfiguration::'):
        R.add(Contract(cl + 'has', nargs=1, trusted='eckit: whether the configuration has the entry', ensures=lambda c: [('h', c.ret == has_of(raw(c.this))(raw(c.this), c.args[0]))]))
        R.add(Contract(cl + 'getString', nargs=2, trusted='eckit: the entry of the configuration, or the default', ensures=lambda c: [('s', c.ret == S_of(raw(c.this))(raw(c.this), c.args[0], c.args[1]))]))
        R.add(Contract(cl + 'getStringVector', nargs=1, trusted='eckit: the entries of the configuration', ensures=lambda c: [('v', raw(c.ret) == vec_of(raw(c.this))(raw(c.this), c.args[0]))]))

    def mctor(c):
        cf = raw(c.args[0])
        sel, ex = c.this.select, c.this.excludes
        m = lambda e, p: z3.Function('matcher_of', STR, INT, raw(sel).sort())(e, z3.IntVal(p))
        L = lambda x: c.ex.lit(x)
        v = V(c.ex, vec_of(cf)(cf, L('excludes')), None)
        i = c.fresh('i')
        h = has_of(cf)(cf, L('excludes'))
        return [('one of several values is enough for the select expression', raw(sel) == m(S_of(cf)(cf, L('select'), L('')), 1)),
                ('one expression for each exclusion', z3.Implies(v.n >= 0, ex.n == Ite(h, v.n, z3.IntVal(0)))),
                ('all values have to match an exclude expression', z3.ForAll([i], z3.Implies(And(0 <= i, i < ex.n), raw(ex[i]) == m(v[i], 0))))]

    def mtmpl(lp):
        out = []
        this = lp.this_at
        cf = raw(lp.arg(0))
        v = V(lp.ex, vec_of(cf)(cf, lp.ex.lit('excludes')), None)
        i = z3.Int('i?%d' % lp.ex.key('q'))
        out.append(('exclusions so far', lambda st: z3.ForAll([i], z3.Implies(And(0 <= i, i < this(st).excludes.n), raw(this(st).excludes[i]) == z3.Function('matcher_of', STR, INT, raw(this(st).select).sort())(v[i], z3.IntVal(0))))))
        return out
    R.add(Contract(T + 'SelectMatcher::<ctor>', nargs=1, sig='LocalConfiguration', src=M, tmpl=mtmpl, ensures=mctor))

    def kget(c):
        import keys
        m = keys.mp(c.this.key)
        r = raw(c.ret)
        d = dt_of(r)
        val = d.get(r, 1)
        dv = dt_of(val)
        k = c.args[0]
        return [('a keyword of the key has a value', d.get(r, 0) == m.has(k)), ('its value in the key, as a single one', z3.Implies(m.has(k), And(dv.get(val, 0) == 0, dv.get(val, 1) == m[k])))]
    R.add(Contract('fdb5::KeyAccessor::get', nargs=1, src=M, ensures=kget))

    # ipos: how many elements an iterator has given; an aggregate gives those of each of its iterators in turn
    INTS = z3.ArraySort(INT, INT)
    cnt = z3.Function('elements_of', INT, INT)

    def elem(it, k, so):
        return z3.Function('element_of_' + str(so)[:40], INT, INT, so)(it, k)

    def left(gh, it):
        return And(it != 0, z3.Select(gh['ipos'], it) < cnt(it))

    def nxt(c):
        gh = c.ex.st.ghost
        it = raw(c.this.impl)
        p0 = c.gold['ipos']
        gh['ipos'] = Ite(left(c.gold, it), z3.Store(p0, it, z3.Select(p0, it) + 1), p0)
        return [('whether there is one', c.ret == left(c.gold, it)), ('the next one', z3.Implies(c.ret, raw(c.args[0]) == elem(it, z3.Select(p0, it), raw(c.args[0]).sort())))]
    R.add(Contract('fdb5::APIIterator::next', nargs=1, modifies=(0,), trusted='the elements found, one after the other', ensures=nxt))

    def ini_it(c):
        ghost(c, 'ipos', INTS)
        return []

    def agg(c):
        q0, q1 = c.old.iterators, c.this.iterators
        i = c.fresh('i')
        go, gn = c.gold, c.ex.st.ghost
        d = q0.n - q1.n
        f = raw(q1[0].impl)
        return [('iterators are only dropped from the front', And(0 <= q1.n, d >= 0, z3.ForAll([i], z3.Implies(And(0 <= i, i < q1.n), raw(q1[i]) == raw(q0[i + d]))))),
                ('those dropped have nothing left', z3.ForAll([i], z3.Implies(And(0 <= i, i < d), Not(left(go, raw(q0[i].impl)))))),
                ('at the end nothing is left', z3.Implies(Not(c.ret), q1.n == 0)),
                ('the next element of the first iterator that has one', z3.Implies(c.ret, And(q1.n > 0, left(go, f), raw(c.args[0]) == elem(f, z3.Select(go['ipos'], f), raw(c.args[0]).sort()), gn['ipos'] == z3.Store(go['ipos'], f, z3.Select(go['ipos'], f) + 1)))),
                ('nothing is consumed at the end', z3.Implies(Not(c.ret), gn['ipos'] == go['ipos']))]

    def gtmpl(lp):
        i = z3.Int('i?%d' % lp.ex.key('q'))
        q = lambda st: lp.this_at(st).iterators
        d = lambda st: q(lp.entry).n - q(st).n
        return [('a suffix is kept', lambda st: And(q(st).n >= 0, d(st) >= 0, z3.ForAll([i], z3.Implies(And(0 <= i, i < q(st).n), raw(q(st)[i]) == raw(q(lp.entry)[i + d(st)]))))),
                ('those dropped have nothing left', lambda st: z3.ForAll([i], z3.Implies(And(0 <= i, i < d(st)), Not(left(lp.entry.ghost, raw(q(lp.entry)[i].impl)))))),
                ('nothing is consumed', lambda st: st.ghost['ipos'] == lp.entry.ghost['ipos'])]
    R.add(Contract('fdb5::APIAggregateIterator::next', nargs=1, this_ty=lambda fn: 'fdb5::APIAggregateIterator<%s>' % fn.f.pt[0].strip().s, src=S, modifies=('this', 0), requires=ini_it, ghosts=('ipos',), tmpl=gtmpl, ensures=agg))
