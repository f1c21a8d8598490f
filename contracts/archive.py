"""Contracts of archiving: which database and index a field goes to, and the order in which a flush publishes it."""
import z3
import lib
from contract import Contract, V, pointed
from execu import And, Or, Not, Ite
from sorts import STR, INT, BOOL

SRC = ['src/fdb5/database/Archiver.cc', 'src/fdb5/toc/TocCatalogueWriter.cc', 'src/fdb5/toc/TocStore.cc', 'src/fdb5/api/SelectFDB.cc']
T = 'fdb5::'
SETS = z3.ArraySort(INT, BOOL)


def ref(c):
    """identity of the object a virtual function is called on"""
    lv = c.thislv
    if lv is None or lv.root[0] != 'h':
        from sorts import Unsupported
        raise Unsupported('virtual call on an object without identity')
    return lv.path[0][1]


def ghost(c, n, sort):
    return c.ex.st.ghost.setdefault(n, z3.Const('ghost0_' + n, sort))


def init(**gs):
    """requires-clause that only brings the ghost variables into being"""
    def f(c):
        for n, s in gs.items():
            ghost(c, n, s)
        return []
    return f


def mark(n, val=None):
    """ensures-clause of a trusted function: the object is in the ghost set from now on"""
    def f(c):
        c.ex.st.ghost[n] = z3.Store(ghost(c, n, SETS), ref(c), z3.BoolVal(True))
        return []
    return f


def register(R):
    S = SRC[:1]
    G = dict(sflushed=SETS, cflushed=SETS, count=INT)

    def sflush(c):
        c.ex.st.ghost['sflushed'] = z3.Store(ghost(c, 'sflushed', SETS), ref(c), z3.BoolVal(True))
        c.ex.st.ghost['count'] = c.ret
        return []
    R.add(Contract(T + 'Store::flush', nargs=0, trusted='virtual: the store makes its data durable and says how many fields that was', ensures=sflush))
    R.add(Contract(T + 'CatalogueWriter::flush', nargs=1, trusted='virtual: the catalogue publishes its indexes', requires=lambda c: [('the store was flushed before, with that many fields', c.args[0] == ghost(c, 'count', INT))], ensures=mark('cflushed')))

    R.add(Contract(T + 'Catalogue::flush', nargs=1, trusted='virtual: the catalogue publishes its indexes', requires=lambda c: [('the store was flushed before, with that many fields', c.args[0] == ghost(c, 'count', INT))], ensures=mark('cflushed')))

    def fdb(c):
        d = c.args[0]
        o = z3.Const('fl_o', INT)
        g = c.ex.st.ghost
        more = lambda n: z3.ForAll([o], z3.Implies(z3.Select(c.gold[n], o), z3.Select(g[n], o)))
        return [('the store is flushed', z3.Select(g['sflushed'], d.store)), ('the catalogue is flushed', z3.Select(g['cflushed'], d.catalogue)),
                ('what was flushed before stays so', And(more('sflushed'), more('cflushed')))]
    R.add(Contract(T + 'Archiver::flushDatabase', nargs=1, src=S, requires=init(**G), ensures=fdb, ghosts=tuple(G)))

    # eviction: a database that leaves the cache was flushed, and the one that is selected may be archived to
    R.add(Contract(T + 'CatalogueWriterFactory::build', nargs=2, trusted='factory: the writer of the database', ensures=lambda c: []))
    allowed = z3.Function('catalogue_enabled', INT, INT, BOOL)
    R.add(Contract(T + 'Catalogue::enabled', nargs=1, trusted='virtual: whether the operation is enabled on the database', ensures=lambda c: [('en', c.ret == allowed(ref(c), c.args[0]))]))
    R.add(Contract(T + 'CatalogueWriter::buildStore', nargs=0, trusted='virtual: the store of the database', ensures=lambda c: []))

    def seld(c):
        D, E = c.this.databases, c.old.databases
        g = c.ex.st.ghost
        k = z3.Const('sd_k', D.hasarr.sort().domain())
        key = c.pre[0].t
        return [('the database is in the cache', D.has(key)),
                ('a database that leaves the cache was flushed', z3.ForAll([k], z3.Implies(And(E.has(k), Not(D.has(k))), And(z3.Select(g['sflushed'], E[k].store), z3.Select(g['cflushed'], E[k].catalogue))))),
                ('the others are kept', z3.ForAll([k], z3.Implies(And(D.has(k), k != key), And(E.has(k), D[k].store == E[k].store, D[k].catalogue == E[k].catalogue)))),
                ('a database that is new may be archived to', z3.Implies(Not(E.has(key)), allowed(D[key].catalogue, z3.IntVal(4))))]
    R.add(Contract(T + 'Archiver::selectDatabase', nargs=1, src=S, requires=init(**G), modifies=('this',), throws='any', ghosts=tuple(G), ensures=seld))

    def all_flushed(ex, m, st, done):
        k = z3.Const('af_k', m.hasarr.sort().domain())
        return z3.ForAll([k], z3.Implies(done(k), And(z3.Select(st.ghost['sflushed'], m[k].store), z3.Select(st.ghost['cflushed'], m[k].catalogue))))

    def ftmpl(lp):
        m = lp.this_at(lp.entry).databases
        idx = lp.ex.order_fns(m.hasarr.sort().domain())[2]
        return [('databases so far', lambda st, cl=cl: all_flushed(lp.ex, m, st, lambda k: And(m.has(k), idx(m.hasarr, k) < lp.c(st, cl)))) for cl, step in lp.counters]
    R.add(Contract(T + 'Archiver::flush', nargs=0, src=S, requires=init(**G), tmpl=ftmpl, modifies=(), ensures=lambda c: [('every open database is flushed, store and catalogue', all_flushed(c.ex, c.this.databases, c.ex.st, lambda k: c.this.databases.has(k))), ('the databases are kept', c.this.databases.t == c.old.databases.t)]))
