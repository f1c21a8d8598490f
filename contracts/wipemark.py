"""Contracts of what a wipe decides, index by index: the index and its data are marked, or kept safe."""
import z3
import eck, wipe
from archive import ref, ghost, init
from contract import Contract, V, pointed
from eck import raw, pname
from execu import And, Or, Not
from sorts import STR, INT, BOOL, dt_of, opaque, seq_dt

SRC = ['src/fdb5/api/local/WipeVisitor.cc', 'src/fdb5/toc/TocCatalogue.cc', 'src/fdb5/toc/TocStore.cc', 'src/fdb5/database/WipeCoordinator.cc']
F = 'fdb5::'
X = F + 'api::local::'
VEC = []


def rt(ex, n):
    return ex.world.recs[n].t


def durs(o, sort=None):
    """the data files an index refers to"""
    if sort is not None:
        VEC[:] = [sort]
    return z3.Function('spec_dataURIs', INT, VEC[0])(o)


def iuri(o):
    return z3.Function('spec_index_uri', INT, eck.uri())(o)


def instate(ex, st, f):
    s = ex.st
    ex.st = st
    try:
        return f()
    finally:
        ex.st = s


class State:
    """the state of the wipe the visitor fills"""

    def __init__(self, ex, this, old=False):
        self.ex, self.old = ex, old
        self.v = pointed(ex, this.catalogueWipeState, rt(ex, 'fdb5::CatalogueWipeState'), old)
        self.m = self.v.storeWipeStates

    def of(self, u):
        return pointed(self.ex, self.m[wipe.storeof(u)], rt(self.ex, 'fdb5::StoreWipeState'), self.old)

    def there(self, u):
        k = wipe.storeof(u)
        return And(self.m.has(k), self.m[k] != 0)

    def safe(self, u):
        return And(self.there(u), self.of(u).safeURIs.has(u))

    def marked(self, t, u):
        return And(self.there(u), wipe.dele(self.of(u))(t, u))


def inv(ex, this, alloc):
    """no two stores share a state, and none is that of the catalogue"""
    s = State(ex, this)
    a, b = z3.Const('iv_a', s.m.hasarr.sort().domain()), z3.Const('iv_b', s.m.hasarr.sort().domain())
    return And(this.catalogueWipeState <= alloc, z3.ForAll([a, b], z3.Implies(And(s.m.has(a), s.m.has(b), a != b, s.m[a] != 0), s.m[a] != s.m[b])), z3.ForAll([a], z3.Implies(s.m.has(a), And(s.m[a] >= 0, s.m[a] <= alloc, s.m[a] != this.catalogueWipeState))))


def alloc(st):
    return st.ghost.get('alloc', z3.Const('alloc0', INT))


def register(R):
    wipe.register(R)
    S = SRC[:1]
    STORE = z3.IntVal(dict(wipe.ENUM)['STORE'])
    G = dict(inc=BOOL)
    R.add(Contract(F + 'IndexBase::dataURIs', nargs=0, trusted='virtual: the data files the index refers to', ensures=lambda c: [('', c.ret.t == durs(ref(c), c.ret.t.sort()))]))
    R.add(Contract(F + 'IndexBase::key', nargs=0, trusted='accessor', value=lambda c: ('', c.this.key)))
    R.add(Contract(F + 'EntryVisitor::visitIndex', nargs=1, trusted='remembers the index and its rule', modifies=(), ensures=lambda c: []))
    for B in ('BaseKey::', 'Key::'):
        R.add(Contract(F + B + 'match', nargs=1, sig='MarsRequest', trusted='whether the key takes part in the request (C03)', value=lambda c: ('', spec_match(raw(c.this), raw(c.args[0])))))

    def mark(c):
        c.ex.st.ghost['inc'] = c.ret
        s = c.args[2]
        return [('an index that is not asked for is not wiped', z3.Implies(c.ret, c.args[1]))]
    R.add(Contract(F + 'Catalogue::markIndexForWipe', nargs=3, trusted='virtual: verified for TocCatalogue', modifies=(), ensures=mark))

    def cont(c):
        return pointed(c.ex, c.pre[0].content, rt(c.ex, 'fdb5::IndexBase'), True)

    def tmpl(lp):
        t, u = z3.Const('vi_t', INT), z3.Const('vi_u', eck.uri())
        i = z3.Const('vi_i', INT)
        e = lp.entry
        out = []
        D = lambda: V(lp.ex, durs(lp.arg(0).content), lp.ex.parse_type('std::vector<eckit::URI>')) if False else None
        for cl, step in lp.counters:
            def now(st):
                return instate(lp.ex, st, lambda: State(lp.ex, lp.this_at(st)))
            def at(st, f):
                return instate(lp.ex, st, f)
            def was(f):
                return instate(lp.ex, e, f)
            d = dt_of(durs(lp.arg(0).content))
            arr, n = None, None
            vec = durs(lp.arg(0).content)
            elem = lambda i: seqget(vec, i)
            inc = e.ghost['inc']
            out += [('the state is that of the wipe', lambda st: lp.this_at(st).catalogueWipeState == lp.this_at(e).catalogueWipeState),
                    ('no two stores share a state', lambda st: at(st, lambda: inv(lp.ex, lp.this_at(st), alloc(st)))),
                    ('objects are not released', lambda st: alloc(st) >= alloc(e)),
                    ('safe so far', lambda st, cl=cl: at(st, lambda: z3.ForAll([u], z3.Implies(was(lambda: now(e).safe(u)), now(st).safe(u))))),
                    ('excluded so far', lambda st, cl=cl: at(st, lambda: z3.ForAll([i], z3.Implies(And(0 <= i, i < lp.c(st, cl), Not(inc)), now(st).safe(elem(i)))))),
                    ('included so far', lambda st, cl=cl: at(st, lambda: z3.ForAll([i], z3.Implies(And(0 <= i, i < lp.c(st, cl), inc), Or(now(st).safe(elem(i)), now(st).marked(STORE, elem(i))))))),
                    ('nothing else marked so far', lambda st, cl=cl: at(st, lambda: z3.ForAll([t, u], z3.Implies(And(now(st).marked(t, u), Not(was(lambda: now(e).marked(t, u)))), And(inc, t == STORE, z3.Exists([i], And(0 <= i, i < lp.c(st, cl), elem(i) == u)))))))]
        return out

    def post(c):
        s, o = State(c.ex, c.this), State(c.ex, c.old, True)
        vec = durs(c.pre[0].content)
        i, t, u = c.fresh('i', INT), c.fresh('t', INT), c.fresh('u', eck.uri())
        inc = c.ex.st.ghost['inc']
        n = seqlen(vec)
        k = cont(c).key
        rng = And(0 <= i, i < n)
        return [('an index that the request does not stand for is not wiped', z3.Implies(Not(spec_match(raw(k), raw(c.old.indexRequest))), Not(inc))),
                ('the data of an index that stays is safe', z3.Implies(Not(inc), z3.ForAll([i], z3.Implies(rng, s.safe(seqget(vec, i)))))),
                ('the data of an index that is wiped is marked, unless it is safe', z3.Implies(inc, z3.ForAll([i], z3.Implies(rng, Or(s.safe(seqget(vec, i)), s.marked(STORE, seqget(vec, i))))))),
                ('what is safe stays so', z3.ForAll([u], z3.Implies(o.safe(u), s.safe(u)))),
                ('nothing but the data of an index that is wiped becomes marked', z3.ForAll([t, u], z3.Implies(And(s.marked(t, u), Not(o.marked(t, u))), And(inc, t == STORE, z3.Exists([i], And(rng, seqget(vec, i) == u)))))),
                ('no two stores share a state', inv(c.ex, c.this, alloc(c.ex.st)))]
    EV = tuple('heap:fdb5::EntryVisitor::' + x for x in ('currentCatalogue_', 'currentStore_', 'currentIndex_', 'rule_'))
    R.add(Contract(X + 'WipeCatalogueVisitor::visitIndex', nargs=1, src=S, tmpl=tmpl, requires=lambda c: init(**G)(c) + [('no two stores share a state', inv(c.ex, c.this, alloc(c.ex.st)))], ghosts=tuple(G) + ('alloc',), modifies=('this', 'heap:fdb5::CatalogueWipeState') + wipe.STATES, throws='any', ensures=post))


def spec_match(k, r):
    return z3.Function('spec_match', k.sort(), r.sort(), BOOL)(k, r)


def seqget(v, i):
    return z3.Select(dt_of(v).get(v, 1), i)


def seqlen(v):
    return dt_of(v).get(v, 0)


def register_toc(R):
    eck.register(R)
    S = SRC[1:2]
    T = F + 'TocCatalogue::'
    IDX = z3.IntVal(dict(wipe.ENUM)['CATALOGUE_INDEX'])
    R.add(Contract(F + 'IndexBase::location', nargs=0, trusted='virtual: where the index is', ensures=lambda c: [('', z3.Function('spec_iloc_of', c.ret.t.sort(), INT)(c.ret.t) == ref(c))]))
    R.add(Contract(F + 'IndexLocation::uri', nargs=0, trusted='virtual: where the index is', value=lambda c: ('', iuri(z3.Function('spec_iloc_of', c.this.t.sort(), INT)(c.this.t)))))
    R.add(Contract(F + 'TocCommon::basePath', nargs=0, trusted='the directory of the database', value=lambda c: ('', c.this.directory)))

    def mpost(c):
        w, o = c.args[2], c.pre[2]
        u = iuri(c.pre[0].content)
        x, t = c.fresh('u', eck.uri()), c.fresh('t', INT)
        i = c.fresh('i', w.indexesToMask.hasarr.sort().domain())
        own = eck.same(eck.dirof(eck.path(pname(), u)), eck.local(raw(c.old.directory)))
        out = [('an index is wiped exactly if it is asked for and belongs to the database', c.ret == And(c.pre[1], own)),
               ('what is safe: as before, and the file of an index that stays', z3.ForAll([x], w.safeURIs.has(x) == Or(o.safeURIs.has(x), And(Not(c.ret), x == u)))),
               ('what is marked: as before, and the file of an index that is wiped unless it is safe', z3.ForAll([t, x], wipe.dele(w)(t, x) == Or(wipe.dele(o)(t, x), And(c.ret, t == IDX, x == u, Not(o.safeURIs.has(x)))))),
               ('what is masked: as before, and an index that is wiped', z3.ForAll([i], w.indexesToMask.has(i) == Or(o.indexesToMask.has(i), And(c.ret, i == raw(c.pre[0]))))),
               ('the stores are kept', w.storeWipeStates.t == o.storeWipeStates.t), ('unknown files are kept', w.unknownURIs.t == o.unknownURIs.t)]
        return out
    R.add(Contract(T + 'markIndexForWipe', nargs=3, src=S, opts=dict(objargs=()), modifies=(2,), ensures=mpost))


_reg = register


def register(R):
    _reg(R)
    register_toc(R)


def z3_lp():
    return opaque('eckit::LocalPathName')


def furi_(c, p):
    return eck.mkuri(c.ex.lit('file'), p)


def lp2uri(c, l):
    return furi_(c, eck.asPath(z3.Function('spec_lppath', z3_lp(), STR)(l), pname()))


def register_final(R):
    S = SRC[1:2]
    T = F + 'TocCatalogue::'
    H = F + 'TocHandler::'
    CAT, CTL = (z3.IntVal(dict(wipe.ENUM)[n]) for n in ('CATALOGUE', 'CATALOGUE_CONTROL'))
    G = dict(subs=z3.ArraySort(eck.uri(), BOOL), locks=z3.ArraySort(eck.uri(), BOOL), kids=seq_dt(pname()).sort, listed=z3.ArraySort(eck.uri(), BOOL))

    def plist_(g):
        def f(c):
            u, i = c.fresh('u', eck.uri()), c.fresh('i', INT)
            v = c.ret.t
            eck.uri_axioms(c.ex)
            return [('', z3.ForAll([u], z3.Select(c.ex.st.ghost[g], u) == z3.Exists([i], And(0 <= i, i < seqlen(v), furi_(c, seqget(v, i)) == u))))]
        return f
    R.add(Contract(H + 'subTocPaths', nargs=0, trusted='reads the TOC: the sub-TOCs', ensures=plist_('subs')))
    R.add(Contract(H + 'lockfilePaths', nargs=0, trusted='the files that stand for disabled operations and are there', ensures=plist_('locks')))
    R.add(Contract('eckit::LocalPathName::path', nargs=0, trusted='eckit: the path as a string', value=lambda c: ('', z3.Function('spec_lppath', z3_lp(), STR)(raw(c.this)))))
    R.add(Contract(F + 'TocCommon::owner', nargs=0, trusted='text', ensures=lambda c: []))
    R.add(Contract(T + 'uri', nargs=0, trusted='text of the report', ensures=lambda c: []))
    R.add(Contract('eckit::PathName::baseName', nargs=None, trusted='eckit: the last component', ensures=lambda c: []))

    def masked(c):
        return [('what is safe stays so', c.args[0].safeURIs.t == c.pre[0].safeURIs.t), ('no safe URI becomes marked', z3.Implies(wipe.none_safe(c.pre[0], c), wipe.none_safe(c.args[0], c))),
                ('what is marked stays so', still(c, c.args[0], c.pre[0])), ('unknown files are kept', c.args[0].unknownURIs.t == c.pre[0].unknownURIs.t)]

    def still(c, w, o):
        t, u = c.fresh('t', INT), c.fresh('u', eck.uri())
        return z3.ForAll([t, u], z3.Implies(wipe.dele(o)(t, u), wipe.dele(w)(t, u)))
    R.add(Contract(T + 'addMaskedPaths', nargs=1, trusted='marks what the masked entries of the TOC refer to, unless it is safe (by WipeState::markForDeletion)', modifies=(0,), ensures=masked))

    def kids(c):
        u, i = c.fresh('u', eck.uri()), c.fresh('i', INT)
        v = raw(c.args[0])
        c.ex.st.ghost['kids'] = v
        return [('', z3.ForAll([u], z3.Select(c.ex.st.ghost['listed'], u) == z3.Exists([i], And(0 <= i, i < seqlen(v), furi_(c, seqget(v, i)) == u))))]
    R.add(Contract('fdb5::StdDir::children', nargs=1, trusted='eckit: the files below the directory', modifies=(0,), ensures=kids))
    R.add(Contract('fdb5::StdDir::<ctor>', nargs=None, trusted='eckit', ctor=True, ensures=lambda c: []))
    R.add(Contract('fdb5::StdDir::<dtor>', nargs=0, trusted='eckit', ensures=lambda c: []))

    def own(c, u):
        v = c.old
        return Or(u == lp2uri(c, raw(v.tocPath)), z3.Select(c.ex.st.ghost['subs'], u), u == lp2uri(c, raw(v.schemaPath)))

    def fpost(c):
        w, o = c.args[0], c.pre[0]
        eck.uri_axioms(c.ex)
        u, t = c.fresh('u', eck.uri()), c.fresh('t', INT)
        g = c.ex.st.ghost
        part = z3.Exists([u], o.safeURIs.has(u))
        lock = lambda u: z3.Select(g['locks'], u)
        A = lambda f: z3.ForAll([u], f)
        return [('a part of the database: nothing more is marked', z3.Implies(part, z3.ForAll([t, u], wipe.dele(w)(t, u) == wipe.dele(o)(t, u)))),
                ('a part of the database: the TOC and its schema are safe', z3.Implies(part, A(z3.Implies(own(c, u), w.safeURIs.has(u))))),
                ('a part of the database: the files that disable operations are safe', z3.Implies(part, A(z3.Implies(lock(u), w.safeURIs.has(u))))),
                ('a part of the database: what is safe stays so', z3.Implies(part, A(z3.Implies(o.safeURIs.has(u), w.safeURIs.has(u))))),
                ('the whole database: the TOC and its schema are marked', z3.Implies(Not(part), A(z3.Implies(own(c, u), wipe.dele(w)(CAT, u))))),
                ('the whole database: the files that disable operations are marked', z3.Implies(Not(part), A(z3.Implies(lock(u), wipe.dele(w)(CTL, u))))),
                ('what is marked stays so', still(c, w, o)),
                ('nothing is both marked and safe', z3.Implies(wipe.none_safe(o, c), Or(part, wipe.none_safe(w, c)))),
                ('the whole database: a file that is not marked is unknown', z3.Implies(Not(part), z3.ForAll([u], w.unknownURIs.has(u) == Or(o.unknownURIs.has(u), And(z3.Select(g['listed'], u), Not(wipe.someset(w, u)))))))]

    def tmpl(lp):
        e = lp.entry
        u, i = z3.Const('fw_u', eck.uri()), z3.Const('fw_i', INT)
        out = []
        w0 = lp.arg_at(e, 0)
        kids = e.ghost['kids']
        for cl, step in lp.counters:
            W = lambda st: lp.arg_at(st, 0)
            out += [('marks kept', lambda st: W(st).deleteURIs.t == w0.deleteURIs.t), ('safe kept', lambda st: W(st).safeURIs.t == w0.safeURIs.t),
                    ('unknown so far', lambda st, cl=cl: z3.ForAll([u], W(st).unknownURIs.has(u) == Or(w0.unknownURIs.has(u), And(Not(wipe.someset(w0, u)), z3.Exists([i], And(0 <= i, i < lp.c(st, cl), furi_(lp, seqget(kids, i)) == u))))))]
        return out
    R.add(Contract(T + 'finaliseWipeState', nargs=1, src=S, requires=init(**G), tmpl=tmpl, modifies=(0,), ghosts=('listed', 'kids'), throws='any', ensures=fpost))


_reg3 = register


def register(R):
    _reg3(R)
    register_final(R)


def FS():
    return z3.ArraySort(pname(), BOOL)


def upath(u):
    return eck.path(pname(), u)


def register_remove(R):
    T, ST = F + 'TocCatalogue::', F + 'TocStore::'
    G = dict(files=FS())
    now = lambda c: c.ex.st.ghost['files']

    def gone(c, p):
        c.ex.st.ghost['files'] = z3.Store(ghost(c, 'files', FS()), p, z3.BoolVal(False))
        return []
    for n in ('rmdir', 'unlink'):
        R.add(Contract('eckit::PathName::' + n, nargs=1, trusted='the file system', ensures=lambda c: gone(c, raw(c.this))))
    R.add(Contract('eckit::PathName::isDir', nargs=0, trusted='the file system', ensures=lambda c: []))
    R.add(Contract('eckit::PathName::exists', nargs=0, trusted='the file system', ensures=lambda c: [('', c.ret == z3.Select(ghost(c, 'files', FS()), raw(c.this)))]))
    R.add(Contract('eckit::URI::scheme', nargs=0, trusted='eckit: the scheme of the URI', value=lambda c: ('', z3.Function('spec_scheme', eck.uri(), STR)(raw(c.this)))))
    R.add(Contract(ST + 'type', nargs=0, trusted='constant', ensures=lambda c: []))

    def rpost(c, p):
        return [('only that path is removed, and only for real', now(c) == z3.If(c.pre[3], z3.Store(c.gold['files'], p, z3.BoolVal(False)), c.gold['files']))]
    R.add(Contract(T + 'remove', nargs=4, src=SRC[1:2], requires=init(**G), ghosts=('files',), throws='any', ensures=lambda c: rpost(c, raw(c.pre[0]))))
    R.add(Contract(ST + 'remove', nargs=4, src=SRC[2:3], requires=init(**G), ghosts=('files',), throws='any', ensures=lambda c: rpost(c, upath(raw(c.pre[0])))))

    def some(w):
        def f(p):
            t, u = z3.Const('sm_t', INT), z3.Const('sm_u', eck.uri())
            return z3.Exists([t, u], And(wipe.dele(w)(t, u), upath(u) == p))
        return f

    def inset(s):
        def f(p):
            u = z3.Const('is_u', eck.uri())
            return z3.Exists([u], And(s.has(u), upath(u) == p))
        return f

    def onlymarked(c, f):
        p = c.fresh('p', pname())
        return ('nothing but what is marked is removed, and nothing is made', z3.ForAll([p], And(z3.Implies(z3.Select(now(c), p), z3.Select(c.gold['files'], p)), z3.Implies(And(z3.Select(c.gold['files'], p), Not(z3.Select(now(c), p))), f(p)))))

    def tmpl_of(sets, allowed):
        """sets(lp) = the sets of URIs a loop may walk; allowed(lp) = which paths may go"""
        def tmpl(lp):
            e = lp.entry
            g0 = z3.Const('ghost0_files', FS())
            g = lambda st: st.ghost['files']
            p, u = z3.Const('rm_p', pname()), z3.Const('rm_u', eck.uri())
            ok = allowed(lp)
            out = [('only what may go is gone', lambda st: z3.ForAll([p], And(z3.Implies(z3.Select(g(st), p), z3.Select(g0, p)), z3.Implies(And(z3.Select(g0, p), Not(z3.Select(g(st), p))), ok(p))))),
                   ('what is gone stays gone', lambda st: z3.ForAll([p], z3.Implies(z3.Select(g(st), p), z3.Select(g(e), p))))]
            for cl, step in lp.counters:
                for has in sets(lp):
                    idx = lp.ex.order_fns(has.sort().domain())[2]
                    out.append(('gone so far', lambda st, has=has, idx=idx, cl=cl: z3.ForAll([u], z3.Implies(And(z3.Select(has, u), idx(has, u) < lp.c(st, cl)), Not(z3.Select(g(st), upath(u)))))))
            return out
        return tmpl

    def unk(lp):
        return [lp.arg(0).hasarr]
    for q, src in ((T, SRC[1:2]), (ST, SRC[2:3])):
        R.add(Contract(q + 'doWipeUnknowns', nargs=1, src=src, requires=init(**G), ghosts=('files',), throws='any', tmpl=tmpl_of(unk, lambda lp: inset(lp.arg(0))), ensures=lambda c: [onlymarked(c, inset(c.pre[0])), ('all of them are gone', allgone(c, lambda u: c.pre[0].has(u)))]))

    def allgone(c, f):
        u = c.fresh('u', eck.uri())
        return z3.ForAll([u], z3.Implies(f(u), Not(z3.Select(now(c), upath(u)))))

    def cat_tmpl(lp):
        w = lp.arg(0)
        m = w.deleteURIs
        card, nth, idx = lp.ex.order_fns(m.hasarr.sort().domain())
        k, u, p = z3.Const('ct_k', INT), z3.Const('ct_u', eck.uri()), z3.Const('ct_p', pname())
        g = lambda st: st.ghost['files']
        out = tmpl_of(lambda lp: [], lambda lp: some(w))(lp)
        cur = [v for v in lp.entry.env.values() if z3.is_expr(v) and z3.is_app(v) and v.decl().name() == nth.name() and v.arg(0).eq(z3.simplify(m.hasarr))]
        for cl, step in lp.counters:
            if not cur:
                out.append(('types so far', lambda st, cl=cl: z3.ForAll([k, u], z3.Implies(And(m.has(k), idx(m.hasarr, k) < lp.c(st, cl), m[k].has(u)), Not(z3.Select(g(st), upath(u)))))))
            for v in cur[:1]:
                has = m[v].hasarr
                ix = lp.ex.order_fns(has.sort().domain())[2]
                out.append(('URIs of the type so far', lambda st, cl=cl, has=has, ix=ix: z3.ForAll([u], z3.Implies(And(z3.Select(has, u), ix(has, u) < lp.c(st, cl)), Not(z3.Select(g(st), upath(u)))))))
        return out

    def cpost(c):
        w = c.pre[0]
        t, u = c.fresh('t', INT), c.fresh('u', eck.uri())
        any_ = z3.Exists([t], w.deleteURIs.has(t))
        return [onlymarked(c, some(w)), ('everything that is marked is gone', z3.ForAll([t, u], z3.Implies(wipe.dele(w)(t, u), Not(z3.Select(now(c), upath(u)))))),
                ('the directory goes only if nothing in it is safe', z3.Implies(And(c.this.cleanupEmptyDatabase, Not(c.old.cleanupEmptyDatabase)), z3.ForAll([u], Not(w.safeURIs.has(u)))))]
    R.add(Contract(T + 'doWipeURIs', nargs=1, opts=dict(merge_if=True), src=SRC[1:2], requires=init(**G), ghosts=('files',), modifies=(('f', 'cleanupEmptyDatabase_'),), throws='any', tmpl=cat_tmpl, ensures=cpost))

    def of(w, *names):
        ts = [z3.IntVal(dict(wipe.ENUM)[n]) for n in names]
        def f(p):
            u = z3.Const('of_u', eck.uri())
            return z3.Exists([u], And(Or(*[wipe.dele(w)(t, u) for t in ts]), upath(u) == p))
        return f

    def st_sets(lp):
        w = lp.arg(0)
        m = w.deleteURIs
        return [m[z3.IntVal(dict(wipe.ENUM)[n])].hasarr for n in ('STORE', 'STORE_AUX')]

    def spost(c):
        w = c.pre[0]
        u = c.fresh('u', eck.uri())
        return [onlymarked(c, of(w, 'STORE', 'STORE_AUX')), ('the data files that are marked are gone', allgone(c, lambda u: wipe.dele(w)(z3.IntVal(dict(wipe.ENUM)['STORE']), u))), ('so are their auxiliary files', allgone(c, lambda u: wipe.dele(w)(z3.IntVal(dict(wipe.ENUM)['STORE_AUX']), u))),
                ('the directory goes only if nothing in it is safe', z3.Implies(And(c.this.cleanupEmptyDatabase, Not(c.old.cleanupEmptyDatabase)), z3.ForAll([u], Not(w.safeURIs.has(u)))))]
    R.add(Contract(ST + 'doWipeURIs', nargs=1, src=SRC[2:3], requires=init(**G), ghosts=('files',), modifies=(('f', 'cleanupEmptyDatabase_'),), throws='any', tmpl=tmpl_of(st_sets, lambda lp: of(lp.arg(0), 'STORE', 'STORE_AUX')), ensures=spost))


_reg4 = register


def register(R):
    _reg4(R)
    register_remove(R)
