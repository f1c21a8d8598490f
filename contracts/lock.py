"""Contracts of disabling operations on a database: the files that stand for it, and the operations that ask."""
import z3
import control, eck
from archive import ref, ghost, init
from contract import Contract, V, pointed
from eck import raw, pname, pstr, local
from execu import And, Or, Not, Ite
from sorts import STR, INT, BOOL, opaque

SRC = ['src/fdb5/toc/TocHandler.cc', 'src/fdb5/toc/TocCatalogue.cc', 'src/fdb5/toc/TocCatalogueWriter.cc', 'src/fdb5/database/Catalogue.cc', 'src/fdb5/api/helpers/ControlIterator.cc', 'src/fdb5/api/local/ControlVisitor.cc', 'src/fdb5/api/local/WipeVisitor.cc', 'src/fdb5/database/WipeState.cc', 'src/fdb5/api/local/PurgeVisitor.cc', 'src/fdb5/api/LocalFDB.cc', 'src/fdb5/database/RetrieveVisitor.cc', 'src/fdb5/database/MultiRetrieveVisitor.cc', 'src/fdb5/database/EntryVisitMechanism.cc']
F = 'fdb5::'
LIST, RETRIEVE, ARCHIVE, WIPE, UNIQUE = 1, 2, 4, 8, 16


BITS = 16
DISABLE, ENABLE = 1, 2


def lpath():
    return opaque('eckit::LocalPathName')


def lbelow(d, n):
    return z3.Function('spec_localbelow', lpath(), lpath(), lpath())(d, n)


def lname(s):
    return z3.Function('spec_LocalPathName', STR, lpath())(s)


FS = lambda: z3.ArraySort(pname(), BOOL)


def files(c):
    """which paths there are"""
    return ghost(c, 'files', FS())


def disabled(c, f, d, i):
    """the file that stands for the operation being disabled on the database is there"""
    return z3.Select(f, lock(c, d, i))


def lock(c, d, i):
    """the file that stands for an operation being disabled on the database in directory d; different operations have different files"""
    L = c.ex.lit
    names = ['list.lock', 'retrieve.lock', 'archive.lock', 'wipe.lock', 'duplicates.allow']
    p = lambda d, n: local(lbelow(d, lname(L(n))))
    which = z3.Function('spec_lock_of', pname(), INT)
    v = z3.Const('lk_d', lpath())
    c.ex.axiom('lock files', lambda: [z3.ForAll([v], which(p(v, n)) == 1 << k, patterns=[p(v, n)]) for k, n in enumerate(names)])
    r = p(d, names[4])
    for k in (3, 2, 1, 0):
        r = Ite(i == 1 << k, p(d, names[k]), r)
    return z3.simplify(r) if z3.is_int_value(i) else r


def known(i):
    return Or(*[i == 1 << k for k in range(5)])


def register(R):
    control.register(R)
    eck.register(R)
    for x in R.list:
        x.verify_ = False
    S = SRC[:1]
    G = dict(files=FS())
    H = F + 'TocHandler::'
    E = 'eckit: '
    dirof = lambda t: raw(t.directory)
    R.add(Contract('eckit::LocalPathName::<ctor>', nargs=3, trusted=E + 'the path written as a string', ctor=True, value=lambda c: ('', lname(raw(c.args[0])))))
    R.add(Contract('eckit::operator/', nargs=2, sig='LocalPathName', trusted=E + 'the file of that name in the directory', value=lambda c: ('', lbelow(raw(c.args[0]), raw(c.args[1])))))
    R.add(Contract('eckit::LocalPathName::exists', nargs=0, trusted='the file system', ensures=lambda c: [('whether it is there', c.ret == z3.Select(files(c), local(raw(c.this))))]))
    R.add(Contract('eckit::PathName::exists', nargs=0, trusted='the file system', ensures=lambda c: [('whether it is there', c.ret == z3.Select(files(c), raw(c.this)))]))

    def put(v):
        def f(c):
            c.ex.st.ghost['files'] = z3.Store(files(c), raw(c.this), z3.BoolVal(v))
            return []
        return f
    R.add(Contract('eckit::PathName::touch', nargs=0, trusted='the file system: it is there afterwards', ensures=put(True)))
    R.add(Contract('eckit::PathName::unlink', nargs=1, trusted='the file system: it is not there afterwards', ensures=put(False)))
    R.add(Contract(F + 'TocCommon::checkUID', nargs=0, trusted='refuses (by an exception) whoever does not own the database', throws='any', ensures=lambda c: []))
    R.add(Contract(H + 'checkUID', nargs=0, trusted='refuses (by an exception) whoever does not own the database', throws='any', ensures=lambda c: []))
    R.add(Contract(H + 'fullControlFilePath', nargs=1, src=S, value=lambda c: ('in the directory of the database', lbelow(dirof(c.this), lname(c.pre[0])))))

    def only(c, new, old, p, v):
        q = z3.Const('of_q', pname())
        return [('the file', z3.Select(new, p) == v), ('no other file', z3.ForAll([q], z3.Implies(q != p, z3.Select(new, q) == z3.Select(old, q)), patterns=[z3.Select(new, q)]))]
    for n, v in (('createControlFile', True), ('removeControlFile', False)):
        R.add(Contract(H + n, nargs=1, src=S, requires=init(**G), ghosts=tuple(G), throws='any', modifies=(), ensures=lambda c, v=v: only(c, files(c), c.gold['files'], local(lbelow(dirof(c.this), lname(c.pre[0]))), z3.BoolVal(v))))
    R.add(Contract(H + 'enabled', nargs=1, src=S, requires=lambda c: init(**G)(c) + [('an operation', known(c.pre[0]))], ensures=lambda c: [('unless its file is there', c.ret == Not(disabled(c, files(c), dirof(c.this), c.pre[0])))]))

    def after(c, d, action, done, new, old):
        """the files of the operations in done are as the action says, all others as they were"""
        out = []
        for k in range(5):
            i = z3.IntVal(1 << k)
            was, now = disabled(c, old, d, i), disabled(c, new, d, i)
            out.append(('operation %d' % (1 << k), now == Ite(And(done(i), action == DISABLE), z3.BoolVal(True), Ite(And(done(i), action == ENABLE), z3.BoolVal(False), was))))
        q = z3.Const('af_q', pname())
        out.append(('no other file', z3.ForAll([q], Or(z3.Select(new, q) == z3.Select(old, q), *[q == lock(c, d, z3.IntVal(1 << k)) for k in range(5)]), patterns=[z3.Select(new, q)])))
        return out

    def bit(c, w, i):
        return control.b16(c, w) & control.b16(c, i) != z3.BitVecVal(0, BITS)

    def ctmpl(lp):
        class C:
            ex = lp.ex
        its = [l for l in lp.leaves if isinstance(l.key, tuple) and l.key[-1] == 'iter']
        if not its:
            return []
        key = its[0].key
        w = control.scal(lp.arg(1))
        d = dirof(lp.this_at(lp.entry))
        ZERO, ONE = z3.BitVecVal(0, BITS), z3.BitVecVal(1, BITS)
        st0 = lp.entry

        def vr(st):
            t = st.env[key]
            return V(C.ex, t, st.tys[key])
        def rest(st):
            x = vr(st)
            return control.b16(C, x.value) | control.b16(C, x.remaining)
        def shape(st):
            x = vr(st)
            v, r = control.b16(C, x.value), control.b16(C, x.remaining)
            return And(v & (v - ONE) == ZERO, r & (v | (v - ONE)) == ZERO, z3.Implies(v == ZERO, r == ZERO), rest(st) & ~control.b16(C, w) == ZERO, control.word(x.value), control.word(x.remaining))
        done = lambda st: lambda i: And(bit(C, w, i), rest(st) & control.b16(C, i) == ZERO)
        out = [('bits that remain', shape)]
        for k in range(6):
            out.append(('files so far', lambda st, k=k: after(C, d, lp.arg(0), done(st), st.ghost['files'], st0.ghost['files'])[k][1]))
        return out
    R.add(Contract(H + 'control', nargs=2, src=S, requires=init(**G), ghosts=tuple(G), throws='any', modifies=(), tmpl=ctmpl,
                   ensures=lambda c: after(c, dirof(c.this), c.args[0], lambda i: bit(c, control.scal(c.args[1]), i), files(c), c.gold['files'])))
    catalogues(R, S, G, dirof, disabled)
    visitors(R, after, bit)


def catalogues(R, S, G, dirof, disabled):
    """which operations a database allows: those its configuration allows whose files are not there"""
    C = F + 'TocCatalogue::'
    scal = control.scal
    req = lambda c: init(**G)(c) + [('an operation', known(c.pre[0]))]
    cfg = lambda c: control.on(c, scal(c.this.controlIdentifiers), c.pre[0])
    no = lambda c: disabled(c, files(c), dirof(c.this), c.pre[0])
    R.add(Contract(F + 'CatalogueImpl::enabled', nargs=1, src=SRC, requires=lambda c: [('an operation', known(c.pre[0]))], value=lambda c: ('as its configuration says', cfg(c))))
    R.add(Contract(C + 'enabled', nargs=1, src=SRC, requires=req, ensures=lambda c: [('as its configuration says, unless its file is there', c.ret == And(cfg(c), Not(no(c))))]))
    R.add(Contract(F + 'TocCatalogueWriter::enabled', nargs=1, src=SRC, requires=req, ensures=lambda c: [('as its configuration says, unless its file is there; a writer neither lists nor retrieves', c.ret == And(c.pre[0] != LIST, c.pre[0] != RETRIEVE, cfg(c), Not(no(c))))]))


def visitors(R, after, bit):
    ENA = z3.ArraySort(INT, z3.ArraySort(INT, BOOL))
    G = dict(ena=ENA, queue=INT)
    ena = lambda c, o, i: z3.Select(z3.Select(ghost(c, 'ena', ENA), o), i)
    goldena = lambda c, o, i: z3.Select(z3.Select(c.gold['ena'], o), i)
    R.add(Contract(F + 'Catalogue::enabled', nargs=1, trusted='virtual: whether the operation is allowed on the database (TocCatalogue::enabled)', ensures=lambda c: [('', c.ret == ena(c, ref(c), c.args[0]))]))

    def ctl(c):
        o = ref(c)
        old = ghost(c, 'ena', ENA)
        new = z3.Const('ena!%d' % c.ex.key('ena'), z3.ArraySort(INT, BOOL))
        c.ex.st.ghost['ena'] = z3.Store(old, o, new)
        w = control.scal(c.args[1])
        i = z3.Const('ctl_i', INT)
        out = []
        for k in range(5):
            j = z3.IntVal(1 << k)
            was, now = z3.Select(z3.Select(old, o), j), z3.Select(new, j)
            b = bit(c, w, j)
            out.append(('', now == Ite(And(b, c.args[0] == DISABLE), z3.BoolVal(False), Ite(And(b, c.args[0] == ENABLE), z3.BoolVal(True), was))))
        return out
    R.add(Contract(F + 'Catalogue::control', nargs=2, trusted='virtual: disables or enables the operations (TocHandler::control)', ensures=ctl))
    R.add(Contract('eckit::Queue::emplace', trusted='eckit: one more element in the queue', ensures=lambda c: [c.ex.st.ghost.__setitem__('queue', ghost(c, 'queue', INT) + 1)] and []))
    quiet = lambda c: c.ex.st.ghost['queue'] == c.gold['queue']
    X = F + 'api::local::'

    def catref(c):
        lv = c.arglvs[0]
        if lv.root[0] != 'h':
            from sorts import Unsupported
            raise Unsupported('catalogue without identity')
        return lv.path[0][1]
    same = lambda c: c.ex.st.ghost['ena'] == c.gold['ena']
    def matches(n):
        return lambda c: ('', z3.Function('spec_' + n, raw(c.this).sort(), raw(c.args[0]).sort(), BOOL)(raw(c.this), raw(c.args[0])))
    for n in ('match', 'partialMatch'):
        for B in ('BaseKey::', 'Key::'):
            R.add(Contract(F + B + n, nargs=1, sig='MarsRequest', trusted='whether the key takes part in the request (C03)', value=matches(n)))
    R.add(Contract(F + 'PurgeVisitor::visitDatabase', nargs=1, trusted='virtual: the visitor that does the work', ensures=lambda c: []))
    EV = tuple('heap:fdb5::EntryVisitor::' + x for x in ('currentCatalogue_', 'currentStore_', 'currentIndex_', 'rule_'))
    R.add(Contract(X + 'QueryVisitor::canonicalise', nargs=1, trusted='the request with canonical values (remembered)', ensures=lambda c: []))
    R.add(Contract(X + 'ListVisitor::visitDatabase', nargs=1, src=SRC, opts=dict(objargs=(0,)), requires=init(**G), ghosts=tuple(G), modifies=('this',) + EV, throws='any', ensures=lambda c: [
        ('nothing of a database that is disabled for listing is shown', z3.Implies(Not(goldena(c, catref(c), LIST)), And(Not(c.ret), quiet(c)))), ('nothing is disabled or enabled', same(c))]))
    R.add(Contract(X + 'PurgeVisitor::visitDatabase', nargs=1, src=SRC, opts=dict(objargs=(0,)), requires=init(**G), ghosts=tuple(G), modifies=('this',) + EV, throws='any', ensures=lambda c: [
        ('a database that is disabled for wiping is not purged', z3.Implies(Not(goldena(c, catref(c), WIPE)), Not(c.ret))), ('nothing is disabled or enabled', same(c))]))

    def ctlv(c):
        o = catref(c)
        m = z3.Function('spec_match', raw(catkey(c)).sort(), raw(c.this.request).sort(), BOOL)(raw(catkey(c)), raw(c.this.request))
        w = control.scal(c.this.identifiers)
        x = z3.Const('cv_o', INT)
        out = [('a database that does not match is left alone and not reported', z3.Implies(Not(m), And(same(c), quiet(c)))),
               ('other databases are left alone', z3.ForAll([x], z3.Implies(x != o, z3.Select(c.ex.st.ghost['ena'], x) == z3.Select(c.gold['ena'], x)))),
               ('a database that matches is reported', z3.Implies(m, c.ex.st.ghost['queue'] == c.gold['queue'] + 1))]
        for k in range(5):
            j = z3.IntVal(1 << k)
            out.append(('operation %d of a database that matches' % (1 << k), z3.Implies(m, ena(c, o, j) == Ite(And(bit(c, w, j), c.this.action == DISABLE), z3.BoolVal(False), Ite(And(bit(c, w, j), c.this.action == ENABLE), z3.BoolVal(True), goldena(c, o, j))))))
        return out
    def keyof(c, o):
        return z3.Function('spec_catalogue_key', INT, c.ex.T.sort(c.ex.world.recs['fdb5::Key'].t))(o)
    catkey = lambda c: keyof(c, catref(c))
    R.add(Contract(F + 'Catalogue::key', nargs=0, trusted='virtual: the key of the database', value=lambda c: ('', keyof(c, ref(c)))))
    R.add(Contract(X + 'ControlVisitor::visitDatabase', nargs=1, src=SRC, opts=dict(objargs=(0,)), requires=init(**G), ghosts=tuple(G), modifies=('this',) + EV, throws='any', ensures=ctlv))

    # a wipe remembers what was allowed, disables all but wiping while it works, and restores what was allowed
    def remembered(c, st):
        """what the state of a wipe remembers of what was allowed"""
        d = c.ex.T.rec(c.ex.world.recs['fdb5::CatalogueWipeState'].t)
        k = [i for i, l in enumerate(d.fields) if l.endswith('::initialControlState_')][0]
        return V(c.ex, z3.Select(c.ex.heap(d.fields[k], d.fsorts[k]), st), d.ftys[k])

    def others(c, o):
        x = z3.Const('ot_o', INT)
        return z3.ForAll([x], z3.Implies(x != o, z3.Select(c.ex.st.ghost['ena'], x) == z3.Select(c.gold['ena'], x)))

    def wipe(c):
        o = catref(c)
        out = [('a database that is disabled for wiping is not wiped', z3.Implies(Not(goldena(c, o, WIPE)), And(Not(c.ret), same(c)))),
               ('other databases are left alone', others(c, o)),
               ('a dry run disables nothing', z3.Implies(Not(c.this.doit), same(c)))]
        on = And(c.ret, c.this.doit)
        for j, text in ((LIST, 'listing'), (RETRIEVE, 'retrieval'), (ARCHIVE, 'archiving')):
            out.append(('%s is disabled while the database is wiped' % text, z3.Implies(on, Not(ena(c, o, j)))))
        for j, text in ((WIPE, 'wiping'), (UNIQUE, 'the check of roots')):
            out.append(('%s stays as it was' % text, z3.Implies(on, ena(c, o, j) == goldena(c, o, j))))
        r = remembered(c, c.this.catalogueWipeState)
        for k in range(5):
            j = z3.IntVal(1 << k)
            out.append(('what was allowed is remembered (%d)' % (1 << k), z3.Implies(on, And(r.some, bit(c, control.scal(r.val), j) == goldena(c, o, j)))))
        return out
    R.add(Contract(F + 'Catalogue::wipeInit', nargs=0, trusted='virtual: an empty state of the wipe', ensures=lambda c: []))
    R.add(Contract(F + 'CatalogueWipeState::catalogue', nargs=0, trusted='builds a reader of the database', ensures=lambda c: []))
    R.add(Contract(X + 'WipeCatalogueVisitor::visitDatabase', nargs=1, src=SRC, opts=dict(objargs=(0,), merge_if=True), requires=init(**G), ghosts=tuple(G) + ('alloc',), modifies=('this',) + EV, throws='any', ensures=wipe))

    def restored(c):
        o, i = c.old.catalogue, c.old.initialControlState
        do = And(o != 0, i.some)
        out = [('nothing to restore', z3.Implies(Not(do), same(c))), ('other databases are left alone', others(c, o)), ('only once', z3.Implies(do, Not(c.this.initialControlState.some)))]
        for k in range(5):
            j = z3.IntVal(1 << k)
            out.append(('what was allowed is allowed again, the rest stays (%d)' % (1 << k), z3.Implies(do, ena(c, o, j) == Or(goldena(c, o, j), bit(c, control.scal(i.val), j)))))
        return out
    R.add(Contract(F + 'CatalogueWipeState::restoreControlState', nargs=0, src=SRC, requires=init(**G), ghosts=tuple(G), modifies=(('f', 'initialControlState_'),), throws='any', ensures=restored))
    GF = dict(files=FS())

    def pbelow(c, n):
        return z3.Function('spec_below', pname(), pname(), pname())(eck.path(pname(), raw(c.pre[0])), eck.asPath(c.ex.lit(n), pname()))

    def pre(c):
        locked = z3.Select(files(c), pbelow(c, 'list.lock'))
        return [('what is skipped from here is shown once', z3.Implies(Not(c.ret), c.ex.st.ghost['queue'] == c.gold['queue'] + 1)),
                ('what is not skipped is not shown', z3.Implies(c.ret, quiet(c))),
                ('a database with the file that disables listing is left to be looked at', z3.Implies(locked, c.ret))]
    R.add(Contract('eckit::operator/', nargs=2, sig='(const eckit::PathName', trusted='eckit: the file of that name in the directory', value=lambda c: ('', z3.Function('spec_below', pname(), pname(), pname())(raw(c.args[0]), pn(c.args[1])))))
    pn = lambda x: eck.asPath(raw(x), pname()) if raw(x).sort() == STR else raw(x)
    R.add(Contract(X + 'ListVisitor::preVisitDatabase', nargs=2, src=SRC, requires=init(**G, **GF), ghosts=tuple(G) + tuple(GF), modifies=('this',), throws='any', ensures=pre))

    R.add(Contract(F + 'Schema::matchDatabase', nargs=1, trusted='whether the name is that of a database (C07)', ensures=lambda c: []))
    cached = lambda d, k: z3.Function('spec_cached', raw(d).sort(), raw(k).sort(), BOOL)(raw(d), raw(k))
    R.add(Contract('eckit::CacheLRU::exists', nargs=1, trusted='eckit: whether the key is in the cache', value=lambda c: ('', cached(c.this, c.args[0]))))

    def ret(c):
        return [('a database that is newly opened may be retrieved from', z3.Implies(And(c.ret, c.this.catalogue != c.old.catalogue, Not(cached(c.old.databases, c.pre[0]))), goldena(c, c.this.catalogue, RETRIEVE))),
                ('nothing is disabled or enabled', same(c))]
    R.add(Contract(F + 'CatalogueReaderFactory::build', nargs=2, sig='Key', trusted='factory: a reader of the database', ensures=lambda c: []))
    R.add(Contract(F + 'CatalogueReader::open', nargs=0, trusted='virtual: whether there is such a database', ensures=lambda c: []))
    R.add(Contract(F + 'Catalogue::open', nargs=0, trusted='virtual: whether there is such a database', ensures=lambda c: []))
    R.add(Contract(F + 'MultiRetrieveVisitor::selectDatabase', nargs=2, src=SRC, requires=init(**G), ghosts=tuple(G) + ('alloc',), modifies=('this',), throws='any', ensures=ret))
