"""Contracts of the toc backend: file ids, statistics, data positions, writing and reading of indexes."""
import z3
import lib
from contract import Contract, V, pointed
from execu import And, Or, Not
from sorts import STR, INT, BOOL

SRC = ['src/fdb5/database/UriStore.cc', 'src/fdb5/toc/TocStats.cc', 'src/fdb5/toc/TocStore.cc', 'src/fdb5/toc/TocCatalogueWriter.cc', 'src/fdb5/toc/TocCatalogueReader.cc', 'src/fdb5/api/helpers/ListIterator.cc']
U = 'fdb5::UriStore::'


def dom(v):
    return v.hasarr.sort().domain()


def paths(v):
    return v.paths


def ids(v):
    return v.ids


def store_ok(v, c):
    """ids and files are inverse to each other and new ids are larger than all old ones"""
    i, u = c.fresh('i', INT), c.fresh('u', dom(ids(v)))
    P, D = paths(v), ids(v)
    return [('every file has its id', z3.ForAll([u], z3.Implies(D.has(u), And(P.has(D[u]), P[D[u]] == u)))),
            ('every id has its file', z3.ForAll([i], z3.Implies(P.has(i), And(D.has(P[i]), D[P[i]] == i)))),
            ('new ids are unused', z3.ForAll([i], z3.Implies(P.has(i), And(i >= 0, i < v.next))))]


def register(R):
    S = SRC[:1]
    # eckit::URI
    R.add(Contract(U + '<ctor>', nargs=1, src=S, ctor=True, ensures=lambda c: store_ok(c.this, c) + [('no files', And(paths(c.this).n == 0, ids(c.this).n == 0)), ('writable', Not(c.this.readOnly))]))

    def insert(c):
        u = c.pre[0]
        P, Q, D, E = paths(c.this), paths(c.old), ids(c.this), ids(c.old)
        i, w = c.fresh('i', INT), c.fresh('u', dom(D))
        return [('the id is the one of the file', And(P.has(c.ret), P[c.ret] == u)),
                ('a file that is there keeps its id', z3.Implies(E.has(u), c.ret == E[u])),
                ('earlier ids keep their files', z3.ForAll([i], z3.Implies(Q.has(i), And(P.has(i), P[i] == Q[i])))),
                ('nothing else is added', z3.ForAll([i], z3.Implies(P.has(i), Or(Q.has(i), i == c.ret)))),
                ('still writable', Not(c.this.readOnly))] + store_ok(c.this, c)
    R.add(Contract(U + 'insert', nargs=1, src=S, modifies=('this',), requires=lambda c: store_ok(c.this, c), throws=lambda c: [('read only', c.old.readOnly)], ensures=insert))
    R.add(Contract(U + 'get', nargs=1, src=S, throws=lambda c: [('no such id', Not(paths(c.old).has(c.pre[0])))], ensures=lambda c: [('the file of the id', And(paths(c.this).has(c.pre[0]), c.ret == paths(c.this)[c.pre[0]]))]))
    register_stats(R)


def register_stats(R):
    S = SRC[1:2]
    for cls in ('TocIndexStats', 'TocDbStats'):
        def add(c):
            from sorts import dt_of
            d = dt_of(c.this.t)
            out = []
            for i, l in enumerate(d.fields):
                if d.fsorts[i] == INT and '::Toc' in l:
                    out.append(('%s is the sum' % l.split('::')[-1], d.get(c.this.t, i) == d.get(c.old.t, i) + d.get(c.pre[0].t, i)))
            return out

        def zero(c):
            from sorts import dt_of
            d = dt_of(c.this.t)
            return [('%s is zero' % l.split('::')[-1], d.get(c.this.t, i) == 0) for i, l in enumerate(d.fields) if d.fsorts[i] == INT and '::Toc' in l]
        R.add(Contract('fdb5::%s::<ctor>' % cls, nargs=0, src=S, ctor=True, ensures=zero))
        R.add(Contract('fdb5::%s::operator+=' % cls, nargs=1, src=S, modifies=('this',), ensures=add))
    I = 'fdb5::TocIndexStats::'
    for n in ('fieldsCount', 'duplicatesCount', 'fieldsSize', 'duplicatesSize'):
        R.add(Contract(I + n, nargs=0, src=S, value=lambda c, n=n: ('the counter', getattr(c.this, n))))
        N = 'add' + n[0].upper() + n[1:]
        R.add(Contract(I + N, nargs=1, src=S, modifies=('this',), ensures=lambda c, n=n: [('the counter grows by the amount', getattr(c.this, n) == getattr(c.old, n) + c.pre[0]), ('the new value', c.ret == getattr(c.this, n))] + [('%s kept' % o, getattr(c.this, o) == getattr(c.old, o)) for o in ('fieldsCount', 'duplicatesCount', 'fieldsSize', 'duplicatesSize') if o != n]))
    D = 'fdb5::TocDataStats::'


def seen(v, a, b, d):
    m = v.fingerprints
    return And(m.has(a), m[a].has(b), m[a][b].has(d))


def kstr(c, i):
    """values string of part i of the key"""
    import keys
    k = c.pre[0]
    p = k[i]
    return keys.join(c.ex, p)(keys.nm(p).t, keys.mp(p).arr, keys.nm(p).n)


def register_list(R):
    import keys
    S = SRC[5:6]
    L = len(R.list)
    keys.register(R)
    for c in R.list[L:]:
        c.verify_ = False

    def ins(c):
        a, b, d = c.fresh('a', STR), c.fresh('b', STR), c.fresh('d', STR)
        x, y, z = [kstr(c, i) for i in range(3)]
        return [('it is new unless it was seen', c.ret == Not(seen(c.old, x, y, z))),
                ('exactly the key is added', z3.ForAll([a, b, d], seen(c.this, a, b, d) == Or(seen(c.old, a, b, d), And(a == x, b == y, d == z))))]
    R.add(Contract('fdb5::KeyStore::tryInsert', nargs=1, src=S, modifies=('this',), throws='any', ensures=ins))
    R.add(Contract('fdb5::ListElementDeduplicator::toReplace', nargs=2, src=S, ensures=lambda c: [('the replacement is newer', c.ret == (c.args[0].timestamp < c.args[1].timestamp))]))


_reg0 = register


def register(R):
    _reg0(R)
    register_list(R)
    register_toc(R)


T = 'fdb5::'


def pairs(v):
    return v.field(lambda l, t: l.endswith('TocCatalogueReader::indexes_'))


def register_toc(R):
    SW, SR, ST = SRC[3:4], SRC[4:5], SRC[2:3]
    EX = 'external: the file system'
    # TocStore
    R.add(Contract(T + 'TocStore::generateDataPath', nargs=1, trusted='a fresh path below the directory of the store', ensures=lambda c: []))

    def gdp(c):
        k = c.pre[0]
        P, Q = c.this.dataPaths, c.old.dataPaths
        x = c.fresh('k', P.hasarr.sort().domain())
        return [('the path of the key, the same until the store is closed', P.has(k.t)), ('a key that has a path keeps it', z3.ForAll([x], z3.Implies(Q.has(x), And(P.has(x), P[x] == Q[x]))))]
    R.add(Contract(T + 'TocStore::getDataPath', nargs=1, src=ST, modifies=('this',), ensures=gdp))
    # writer
    W = T + 'TocCatalogueWriter::'
    C = lambda n, **kw: R.add(Contract(W + n, src=SW, **kw))
    TV = 'virtual: done by the index, which is verified against its own contract'
    for n in ('open', 'close', 'flock', 'funlock', 'flush', 'reopen'):
        R.add(Contract(T + 'IndexBase::' + n, nargs=0, trusted=TV + '; it does not touch the maps of the writer'))
    R.add(Contract(T + 'TocHandler::useSubToc', nargs=0, pure=True, trusted='a function of the configuration'))

    def sel(c):
        k = c.pre[0]
        D = c.this.indexes
        return [('whether the writer has an index for the key', c.ret == c.old.indexes.has(k.t)),
                ('the index of the key is selected', z3.Implies(c.ret, c.this.current.t == D[k.t].t)),
                ('the key is remembered', c.this.currentIndexKey.t == k.t),
                ('the indexes are kept', c.this.indexes.t == c.old.indexes.t)]
    C('selectIndexUnlocked', nargs=1, modifies=('this',), throws='any', ensures=sel)
    C('deselectIndexUnlocked', nargs=0, modifies=('this',), ensures=lambda c: [('no index is selected', c.this.current.null), ('the indexes are kept', c.this.indexes.t == c.old.indexes.t)])
    # reader
    Rd = T + 'TocCatalogueReader::'
    R.add(Contract(Rd + 'invalidateAxis', nargs=0, trusted='cache of axes'))
    R.add(Contract(T + 'CatalogueReader::invalidateAxis', nargs=0, trusted='cache of axes'))
