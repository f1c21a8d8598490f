"""Contracts of writing and reading a database: what a flush publishes, where a field is put, which index answers."""
import z3
from contract import raw
import eck, lib
from contract import Contract, V, pointed
from execu import And, Or, Not
from sorts import STR, INT, BOOL
from archive import ref, ghost, init, SETS

SRC = ['src/fdb5/toc/TocCatalogueWriter.cc', 'src/fdb5/toc/TocStore.cc', 'src/fdb5/toc/TocCatalogueReader.cc', 'src/fdb5/toc/TocFieldLocation.cc', 'src/fdb5/database/FieldLocation.cc']
T = 'fdb5::'
W = T + 'TocCatalogueWriter::'
TV = 'virtual: done by the index behind it (TocIndex)'


def sel(c, g, o):
    return z3.Select(c.ex.st.ghost[g], o)


def put_(c, g, o, v):
    c.ex.st.ghost[g] = z3.Store(ghost(c, g, SETS), o, z3.BoolVal(v))


def register(R):
    G = dict(dirty=SETS, recorded=SETS)
    S = SRC[:1]
    for n in ('open', 'close', 'flock', 'funlock'):
        R.add(Contract(T + 'IndexBase::' + n, nargs=0, trusted=TV + '; it does not touch the maps of the writer'))
    R.add(Contract(T + 'IndexBase::dirty', nargs=0, trusted=TV, ensures=lambda c: [('whether something was put since the last flush', c.ret == z3.Select(ghost(c, 'dirty', SETS), ref(c)))]))

    def iflush(c):
        put_(c, 'dirty', ref(c), False)
        return []
    R.add(Contract(T + 'IndexBase::flush', nargs=0, trusted=TV, ensures=iflush))
    R.add(Contract(T + 'IndexBase::reopen', nargs=0, trusted=TV, requires=lambda c: [('the index was flushed and recorded in the TOC', And(Not(z3.Select(ghost(c, 'dirty', SETS), ref(c))), z3.Select(ghost(c, 'recorded', SETS), ref(c))))]))

    def record(c):
        put_(c, 'recorded', c.args[0].content, True)
        return []
    R.add(Contract(T + 'TocHandler::writeIndexRecord', nargs=1, trusted='external: appends a record to the TOC file', requires=lambda c: [('the index was flushed', Not(z3.Select(ghost(c, 'dirty', SETS), c.args[0].content)))], ensures=record))

    def published(ex, m, g, g0, done):
        k = z3.Const('pb_k', m.hasarr.sort().domain())
        return z3.ForAll([k], z3.Implies(done(k), And(Not(z3.Select(g['dirty'], m[k].content)), z3.Implies(z3.Select(g0['dirty'], m[k].content), z3.Select(g['recorded'], m[k].content)))))

    def ftmpl(lp):
        m = lp.this_at(lp.entry).indexes
        idx = lp.ex.order_fns(m.hasarr.sort().domain())[2]
        g0 = dict(lp.entry.ghost)
        o = z3.Const('pb_o', INT)
        return [('indexes so far', lambda st, cl=cl: published(lp.ex, m, st.ghost, g0, lambda k: And(m.has(k), idx(m.hasarr, k) < lp.c(st, cl)))) for cl, step in lp.counters] + \
               [('nothing becomes dirty', lambda st: z3.ForAll([o], z3.Implies(z3.Select(st.ghost['dirty'], o), z3.Select(g0['dirty'], o)))),
                ('what is clean now and was not is recorded', lambda st: z3.ForAll([o], z3.Implies(And(z3.Select(g0['dirty'], o), Not(z3.Select(st.ghost['dirty'], o))), z3.Select(st.ghost['recorded'], o))))]

    def fpost(c):
        m = c.this.indexes
        return [('every index is flushed, and recorded when something was put into it', published(c.ex, m, c.ex.st.ghost, c.gold, lambda k: m.has(k))), ('the indexes are kept', m.t == c.old.indexes.t)]
    R.add(Contract(W + 'flushIndexes', nargs=0, src=S, requires=init(**G), tmpl=ftmpl, modifies=(), ghosts=tuple(G), ensures=fpost))
    register_writer(R, G, published)
    eck.register(R)
    register_store(R)
    register_reader(R)


def register_writer(R, G, published):
    S = SRC[:1]

    def wpost(c):
        m = c.this.indexes
        n = c.old.archivedLocations
        return [('as many fields as the store has written', c.pre[0] == n),
                ('every index is published when something was archived', z3.Implies(n != 0, published(c.ex, m, c.ex.st.ghost, c.gold, lambda k: m.has(k)))),
                ('nothing is left to publish', c.this.archivedLocations == 0),
                ('no index is selected afterwards', z3.Implies(n != 0, c.this.current.null)),
                ('the indexes are kept', And(m.t == c.old.indexes.t, c.this.fullIndexes.t == c.old.fullIndexes.t))]
    R.add(Contract(W + 'flush', nargs=1, src=S, requires=init(**G), modifies=('this',), throws=lambda c: [('another number of fields', c.pre[0] != c.old.archivedLocations)], ghosts=tuple(G), ensures=wpost))
    # archiving one field
    ID = lambda v: v.content
    R.add(Contract(W + 'generateIndexPath', nargs=1, trusted='a fresh path below the directory of the database', ensures=lambda c: []))
    R.add(Contract(T + 'TocHandler::useSubToc', nargs=0, trusted='a function of the configuration', ensures=lambda c: [('configured', c.ret == ghost(c, 'subtoc', BOOL))]))
    R.add(Contract(T + 'TocCommon::stripeLustre', nargs=0, trusted='a function of the configuration'))
    R.add(Contract(T + 'IndexBase::timestamp', nargs=0, trusted='the time of the index'))

    def iput(c):
        k = c.pre[0]
        g = c.ex.st.ghost
        put_(c, 'dirty', ref(c), True)
        g['puts'] = z3.Store(ghost(c, 'puts', z3.ArraySort(INT, INT)), ref(c), z3.Select(ghost(c, 'puts', z3.ArraySort(INT, INT)), ref(c)) + 1)
        g['lastput'] = z3.Store(ghost(c, 'lastput', z3.ArraySort(INT, k.t.sort())), ref(c), k.t)
        return []
    R.add(Contract(T + 'IndexBase::put', nargs=2, trusted=TV, ensures=iput))

    def distinct(c, v):
        x, y = z3.Const('di_x', v.indexes.hasarr.sort().domain()), z3.Const('di_y', v.indexes.hasarr.sort().domain())
        D, F = v.indexes, v.fullIndexes
        return z3.ForAll([x, y], z3.Implies(And(D.has(x), F.has(y)), D[x].content != F[y].content))

    def both(c, v):
        x = z3.Const('bo_x', v.indexes.hasarr.sort().domain())
        return z3.Implies(ghost(c, 'subtoc', BOOL), z3.ForAll([x], v.indexes.has(x) == v.fullIndexes.has(x)))

    IA = z3.ArraySort(INT, INT)

    def consistent(v):
        """an index that is selected is the one of the remembered key"""
        k = v.currentIndexKey.t
        return z3.Implies(Not(v.current.null), And(v.indexes.has(k), v.current.t == v.indexes[k].t))

    def fullcons(c, v):
        k = v.currentIndexKey.t
        return z3.Implies(And(ghost(c, 'subtoc', BOOL), Not(v.current.null)), And(v.fullIndexes.has(k), v.currentFull.t == v.fullIndexes[k].t, v.currentFull.content != v.current.content))

    def allnonnull(v):
        k = z3.Const('nn_k', v.indexes.hasarr.sort().domain())
        return z3.ForAll([k], z3.Implies(v.indexes.has(k), Not(v.indexes[k].null)))

    def exist(c, v):
        x = z3.Const('ex_x', v.indexes.hasarr.sort().domain())
        al = c.ex.st.ghost.setdefault('alloc', z3.Const('alloc0', INT))
        return z3.ForAll([x], And(z3.Implies(v.indexes.has(x), v.indexes[x].content <= al), z3.Implies(v.fullIndexes.has(x), v.fullIndexes[x].content <= al)))

    def inv(c, v):
        return [('the selected index is the one of the remembered key', And(consistent(v), fullcons(c, v))), ('indexes are there', allnonnull(v)), ('indexes are distinct', distinct(c, v)), ('with sub-TOCs every index has a consolidated one', both(c, v)), ('indexes are there already', exist(c, v))]

    def invx(c, v):
        return inv(c, v)[1:]

    def ini0(sel=True):
        def f(c):
            init(**G)(c)
            ghost(c, 'subtoc', BOOL)
            return (inv if sel else invx)(c, c.this)
        return f

    def selpost(c):
        k = c.pre[0]
        D, F = c.this.indexes, c.this.fullIndexes
        return [('whether the writer has an index for the key', c.ret == D.has(k.t)),
                ('the index of the key is selected', z3.Implies(c.ret, And(c.this.current.t == D[k.t].t))),
                ('the key is remembered', c.this.currentIndexKey.t == k.t),
                ('the indexes are kept', And(D.t == c.old.indexes.t, F.t == c.old.fullIndexes.t)),
                ('the count is kept', c.this.archivedLocations == c.old.archivedLocations)] + [(n, z3.Implies(c.ret, f)) for n, f in inv(c, c.this)[:1]] + invx(c, c.this)
    R.add(Contract(W + 'selectIndexUnlocked', nargs=1, src=S, requires=ini0(False), modifies=('this',), throws='any', ensures=selpost))

    def crpost(c):
        k = c.pre[0]
        D, E = c.this.indexes, c.old.indexes
        x = c.fresh('k', D.hasarr.sort().domain())
        return [('the writer has an index for the key', D.has(k.t)), ('it is selected', c.this.current.t == D[k.t].t), ('the key is remembered', c.this.currentIndexKey.t == k.t),
                ('the other indexes are kept', z3.ForAll([x], z3.Implies(x != k.t, And(D.has(x) == E.has(x), D[x].t == E[x].t)))),
                ('an index that is there is kept', z3.Implies(E.has(k.t), D[k.t].t == E[k.t].t)),
                ('the count is kept', c.this.archivedLocations == c.old.archivedLocations)] + inv(c, c.this)
    R.add(Contract(W + 'createIndexUnlocked', nargs=2, src=S, ghosts=('alloc',), requires=ini0(False), modifies=('this',), throws='any', ensures=crpost))
    def ini(c):
        init(**G)(c)
        ghost(c, 'puts', IA)
        ghost(c, 'subtoc', BOOL)
        ghost(c, 'lastput', z3.ArraySort(INT, c.pre[1].t.sort()))
        import keys
        x, y = c.this.currentIndexKey, c.pre[0]
        return inv(c, c.this) + [('keys of indexes with the same values have them in the same order', z3.Implies(lib.eq(c.ex, keys.mp(x).t, keys.mp(y).t, keys.mp(x).ty), x.t == y.t))]

    def apost(c):
        ik, dk = c.pre[0], c.pre[1]
        D, E = c.this.indexes, c.old.indexes
        g, h = c.ex.st.ghost, c.gold
        o = c.fresh('o', INT)
        x = c.fresh('k', D.hasarr.sort().domain())
        me = D[ik.t].content
        full = c.this.currentFull.content
        return [('one more field was archived', z3.Or(c.this.archivedLocations == c.old.archivedLocations + 1, c.old.archivedLocations == 2 ** 64 - 1)),
                ('the writer has an index for the key', D.has(ik.t)),
                ('the field is put into the index of its key, once', And(z3.Select(g['puts'], me) == z3.Select(h['puts'], me) + 1)),
                ('with sub-TOCs also into the consolidated index of its key', z3.Implies(g['subtoc'], And(c.this.fullIndexes.has(ik.t), c.this.fullIndexes[ik.t].content == full, z3.Select(g['puts'], full) == z3.Select(h['puts'], full) + 1, z3.Select(g['lastput'], full) == dk.t))),
                ('it is put under its key', z3.Select(g['lastput'], me) == dk.t),
                ('nothing is put into another index', z3.ForAll([o], z3.Implies(And(o != me, Not(And(g['subtoc'], o == full))), And(z3.Select(g['puts'], o) == z3.Select(h['puts'], o), z3.Select(g['lastput'], o) == z3.Select(h['lastput'], o))))),
                ('the other indexes are kept', z3.ForAll([x], z3.Implies(x != ik.t, And(D.has(x) == E.has(x), D[x].t == E[x].t)))),
                ('an index that is there is kept', z3.Implies(E.has(ik.t), D[ik.t].t == E[ik.t].t)),
                ] + inv(c, c.this)
    R.add(Contract(W + 'archive', nargs=3, src=S, requires=ini, modifies=('this',), throws='any', ghosts=('puts', 'lastput', 'dirty', 'alloc'), ensures=apost))
    R.add(Contract(W + 'deselectIndexUnlocked', nargs=0, src=S, modifies=('this',), ensures=lambda c: [('no index is selected', c.this.current.null), ('the indexes are kept', And(c.this.indexes.t == c.old.indexes.t, c.this.archivedLocations == c.old.archivedLocations))]))


def register_store(R):
    S = SRC[1:2]
    D = 'eckit::DataHandle::'
    ST = T + 'TocStore::'
    IA = z3.ArraySort(INT, INT)
    EX = 'external: the data file behind the handle'
    G = dict(durable=SETS, wpos=IA, wlast=IA)

    def dflush(c):
        put_(c, 'durable', ref(c), True)
        return []

    def dwrite(c):
        g = c.ex.st.ghost
        put_(c, 'durable', ref(c), False)
        p = ghost(c, 'wpos', IA)
        g['wlast'] = z3.Store(ghost(c, 'wlast', IA), ref(c), z3.Select(p, ref(c)))
        g['wpos'] = z3.Store(p, ref(c), z3.Select(p, ref(c)) + c.ret)
        return [('no more than asked for', c.ret <= c.args[1])]
    R.add(Contract(D + 'flush', nargs=0, trusted=EX, ensures=dflush))
    R.add(Contract(D + 'close', nargs=0, trusted=EX, ensures=lambda c: []))
    R.add(Contract(D + 'position', nargs=0, trusted=EX, ensures=lambda c: [('where the next byte goes', c.ret == z3.Select(ghost(c, 'wpos', IA), ref(c)))]))
    R.add(Contract(D + 'write', nargs=2, trusted=EX, ensures=dwrite))
    R.add(Contract(D + 'openForAppend', nargs=1, trusted=EX, ensures=dflush))
    R.add(Contract(ST + 'generateDataPath', nargs=1, trusted='a fresh path below the directory of the store', ensures=lambda c: []))
    R.add(Contract(ST + 'createDataHandle', nargs=1, trusted='a new handle on the file', ensures=lambda c: []))

    def alldur(c, v, g, but=None):
        x = z3.Const('ad_x', v.handles.hasarr.sort().domain())
        return z3.ForAll([x], z3.Implies(v.handles.has(x), z3.Select(g['durable'], v.handles[x])))

    def ftmpl(lp):
        m = lp.this_at(lp.entry).handles
        idx = lp.ex.order_fns(m.hasarr.sort().domain())[2]
        g0 = dict(lp.entry.ghost)
        k = z3.Const('fd_k', m.hasarr.sort().domain())
        o = z3.Const('fd_o', INT)
        return [('handles so far', lambda st, cl=cl: z3.ForAll([k], z3.Implies(And(m.has(k), idx(m.hasarr, k) < lp.c(st, cl)), z3.Select(st.ghost['durable'], m[k])))) for cl, step in lp.counters] + \
               [('flushed stays flushed', lambda st: z3.ForAll([o], z3.Implies(z3.Select(g0['durable'], o), z3.Select(st.ghost['durable'], o))))]
    R.add(Contract(ST + 'flushDataHandles', nargs=0, src=S, requires=init(**G), tmpl=ftmpl, modifies=(), ghosts=('durable',), ensures=lambda c: [('every open data file is durable', alldur(c, c.this, c.ex.st.ghost)), ('the handles are kept', And(c.this.handles.t == c.old.handles.t, c.this.archivedFields == c.old.archivedFields))]))

    def sinv(c, v, g):
        return ('what is counted as flushed is durable', z3.Implies(v.archivedFields == 0, alldur(c, v, g)))

    def ini(c):
        init(**G)(c)
        return [sinv(c, c.this, c.ex.st.ghost)]

    def fpost(c):
        return [('the number of fields written since the last flush', c.ret == c.old.archivedFields), ('counting starts again', c.this.archivedFields == 0), ('every open data file is durable', alldur(c, c.this, c.ex.st.ghost)), ('the handles are kept', c.this.handles.t == c.old.handles.t)]
    R.add(Contract(ST + 'flush', nargs=0, src=S, requires=ini, modifies=('this',), ghosts=('durable',), ensures=fpost))

    def gdp(c):
        k = c.pre[0]
        P, Q = c.this.dataPaths, c.old.dataPaths
        x = c.fresh('k', P.hasarr.sort().domain())
        return [('the path of the key, the same until the store is closed', And(P.has(k.t), eck.raw(c.ret) == eck.asPath(P[k.t], eck.pname()))), ('a key that has a path keeps it', z3.ForAll([x], z3.Implies(Q.has(x), And(P.has(x), P[x] == Q[x])))), ('the rest is kept', And(c.this.handles.t == c.old.handles.t, c.this.archivedFields == c.old.archivedFields)), ('only this key gets a path', z3.ForAll([x], z3.Implies(P.has(x), Or(Q.has(x), x == k.t))))]
    def pathax(c):
        p = z3.Const('pa_p', eck.pname())
        c.ex.axiom('eck paths', lambda: [z3.ForAll([p], eck.asPath(eck.pstr(p), eck.pname()) == p, patterns=[eck.pstr(p)])])
        return []
    R.add(Contract(ST + 'getDataPath', nargs=1, src=S, requires=pathax, modifies=('this',), ensures=gdp))

    def geth(c):
        p = eck.pstr(eck.raw(c.args[0]))
        H, Q = c.this.handles, c.old.handles
        x = c.fresh('h', H.hasarr.sort().domain())
        return [('the handle of the file', And(H.has(p), c.ret == H[p])), ('a file that is open keeps its handle', z3.Implies(And(Q.has(p), Q[p] != 0), H[p] == Q[p])),
                ('the other handles are kept', z3.ForAll([x], z3.Implies(x != p, And(H.has(x) == Q.has(x), H[x] == Q[x])))),
                ('a new handle is durable', z3.Implies(Not(Q.has(p)), z3.Select(c.ex.st.ghost['durable'], H[p]))), ('the count is kept', c.this.archivedFields == c.old.archivedFields), ('the paths are kept', c.this.dataPaths.t == c.old.dataPaths.t)]
    R.add(Contract(ST + 'getCachedHandle', nargs=1, src=S, ensures=lambda c: [('the handle of the file, if it is open', c.ret == z3.If(c.old.handles.has(eck.pstr(eck.raw(c.pre[0]))), c.old.handles[eck.pstr(eck.raw(c.pre[0]))], 0))]))
    R.add(Contract(ST + 'getDataHandle', nargs=1, src=S, requires=init(**G), modifies=('this',), throws='any', refret=True, ghosts=('durable', 'alloc'), ensures=geth))

    def ctor(c):
        u = eck.raw(c.pre[0])
        return [('the file', eck.raw(c.this.uri) == (u if u.sort() == eck.uri() else eck.mkuri(c.ex.lit('file'), u))), ('offset', c.this.offset == c.pre[1]), ('length', c.this.length == c.pre[2])]
    R.add(Contract(T + 'TocFieldLocation::<ctor>', nargs=4, sig='PathName', src=SRC[3:4], ctor=True, ensures=ctor))
    R.add(Contract(T + 'TocFieldLocation::<ctor>', nargs=4, sig='URI', src=SRC[3:4], ctor=True, ensures=ctor))
    R.add(Contract(T + 'FieldLocation::<ctor>', nargs=4, src=SRC[4:5], ctor=True, ensures=ctor))

    def HP(c, f, sort=INT):
        return z3.Select(c.ex.heap(T + 'FieldLocation::' + f, sort), c.ret)

    def HU(c):
        return HP(c, 'uri_', eck.uri())

    def STRF(c):
        return c.ex.lit('file')

    def apost(c):
        g, h = c.ex.st.ghost, c.gold
        k = c.pre[0]
        path = eck.pstr(eck.asPath(c.this.dataPaths[k.t], eck.pname()))
        return [('one more field was written', c.this.archivedFields == c.old.archivedFields + 1),
                ('the key has its data file', c.this.dataPaths.has(k.t)),
                ('a key that has a data file keeps it', z3.Implies(c.old.dataPaths.has(k.t), c.this.dataPaths[k.t] == c.old.dataPaths[k.t])),
                ('it has the length of the field', HP(c, 'length_') == c.pre[2]),
                ('the bytes went to the handle of that file', z3.And(c.this.handles.has(path), z3.Select(g['wlast'], c.this.handles[path]) == HP(c, 'offset_'), z3.Select(g['wpos'], c.this.handles[path]) == HP(c, 'offset_') + c.pre[2])),
                ('the location names that file', HU(c) == eck.mkuri(STRF(c), eck.asPath(c.this.dataPaths[k.t], eck.pname())))]
    R.add(Contract(ST + 'archive', nargs=3, src=S, requires=lambda c: ini(c) + [('fewer fields than a counter holds', c.this.archivedFields < 2 ** 63)], modifies=('this',), throws='any', ghosts=('durable', 'wpos', 'wlast', 'alloc'), ensures=apost))


def register_reader(R):
    S = SRC[2:3]
    Rd = T + 'TocCatalogueReader::'
    R.add(Contract(T + 'CatalogueReader::invalidateAxis', nargs=0, trusted='cache of axes'))

    from execu import elem_address
    A, IX = elem_address(Rd + 'indexes_')

    def keyeq(ex, v, i, k):
        import keys
        lab = [l for l in ex.st.heap if l.endswith('IndexBase::key_')]
        from sorts import dt_of
        h = ex.heap(T + 'IndexBase::key_', k.t.sort())
        a = z3.Select(h, v.indexes[i].first.content)
        x = V(ex, a, k.ty)
        return lib.eq(ex, keys.mp(x).t, keys.mp(k).t, keys.mp(x).ty)

    def selected(ex, v, m, k, upto):
        i, j = z3.Const('sl_i', INT), z3.Const('sl_j', INT)
        return And(z3.ForAll([j], z3.Implies(And(0 <= j, j < m.n), And(m[j] == A(IX(m[j])), 0 <= IX(m[j]), IX(m[j]) < upto, keyeq(ex, v, IX(m[j]), k)))),
                   z3.ForAll([i, j], z3.Implies(And(0 <= i, i < j, j < m.n), IX(m[i]) < IX(m[j]))),
                   z3.ForAll([i], z3.Implies(And(0 <= i, i < upto, keyeq(ex, v, i, k)), z3.Exists([j], And(0 <= j, j < m.n, m[j] == A(i))))))

    def stmpl(lp):
        return [('selected so far', lambda st, cl=cl: selected(lp.ex, lp.this_at(st), lp.this_at(st).matching, lp.arg(0), lp.c(st, cl))) for cl, step in lp.counters]

    def sreq(c):
        v = c.this
        return [('the selection is that of the remembered key', selected(c.ex, v, v.matching, v.currentIndexKey, v.indexes.n))]

    def post(c):
        v = c.this
        return [('exactly the indexes of the key are selected, in their order', selected(c.ex, v, v.matching, c.pre[0], v.indexes.n)), ('an answer of no means there is none', z3.Implies(Not(c.ret), v.matching.n == 0)), ('the indexes are kept', v.indexes.t == c.old.indexes.t)]
    R.add(Contract(Rd + 'selectIndex', nargs=1, src=S, requires=sreq, modifies=('this',), tmpl=stmpl, ensures=post))
    U = lambda n, sort, *a: z3.Function(n, *([x.sort() for x in a] + [sort]))(*a)
    may = lambda o, k: U('index_may_contain', BOOL, o, k)
    has = lambda o, k: U('index_has', BOOL, o, k)
    fld = lambda o, k, r, s: U('index_field', s, o, k, r)
    R.add(Contract(T + 'IndexBase::mayContain', nargs=1, trusted='verified against its own contract (C05): the axes hold every value of the key', ensures=lambda c: [('may', c.ret == may(ref(c), raw(c.args[0])))]))
    R.add(Contract(T + 'IndexBase::get', nargs=3, modifies=(2,), trusted='virtual: the entry of the key in the index file', ensures=lambda c: [('there', c.ret == has(ref(c), raw(c.args[0]))), ('its field', z3.Implies(c.ret, raw(c.args[2]) == fld(ref(c), raw(c.args[0]), raw(c.args[1]), raw(c.args[2]).sort())))]))

    def at(ex, st, v, i):
        t = v.matching.ty.args[0] if v.matching.ty.args else v.matching.ty.of
        return pointed(ex, v.matching[i], t.to)

    def hit(c, i):
        o = at(c.ex, None, c.this, i).first.content
        k = raw(c.pre[0])
        return And(may(o, k), has(o, k))

    def rtmpl(lp):
        k = lp.arg(0)
        i = z3.Const('rt_i', INT)

        def none(st, cl):
            v = lp.this_at(st)
            o = lambda i: at(lp.ex, st, v, i).first.content
            return z3.ForAll([i], z3.Implies(And(0 <= i, i < lp.c(st, cl)), Not(And(may(o(i), raw(k)), has(o(i), raw(k))))))
        return [('no hit so far', lambda st, cl=cl: none(st, cl)) for cl, step in lp.counters]

    def rpost(c):
        i, j = c.fresh('i'), c.fresh('j')
        n = c.this.matching.n
        return [('no answer means that no selected index has the key', z3.Implies(Not(c.ret), z3.ForAll([i], z3.Implies(And(0 <= i, i < n), Not(hit(c, i)))))),
                ('the field is that of the first selected index that has the key', z3.Implies(c.ret, z3.Exists([i], And(0 <= i, i < n, hit(c, i), z3.ForAll([j], z3.Implies(And(0 <= j, j < i), Not(hit(c, j)))),
                  raw(c.args[1]) == fld(at(c.ex, None, c.this, i).first.content, raw(c.pre[0]), at(c.ex, None, c.this, i).second.t, raw(c.args[1]).sort())))))]
    R.add(Contract(Rd + 'retrieve', nargs=2, src=S, modifies=(1,), tmpl=rtmpl, ensures=rpost))
