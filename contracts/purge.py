"""Contracts of purge: what is removed is superseded or unreferenced."""
import z3
import lib
import eck
from archive import ref, ghost, init
from contract import Contract, V, pointed
from execu import And, Or, Not, Ite
from sorts import STR, INT, BOOL, dt_of, opaque, mangle, Unsupported

SRC = ['src/fdb5/toc/TocPurgeVisitor.cc', 'src/fdb5/toc/TocStats.cc']
T = 'fdb5::'
PV = T + 'TocPurgeVisitor::'


def caller(c):
    """the purge visitor under verification"""
    k = ('this', 'this')
    ex = c.ex
    return V(ex, ex.st.env[k], ex.st.tys[k])


def psort(v):
    return v.keepAuxFiles.hasarr.sort().domain()


def unreferenced(c, usage, p):
    k = c.fresh('k', STR)
    return z3.Exists([k], And(usage.has(k), usage[k] == 0, eck.asPath(k, p.sort()) == p))


def register(R):
    S = SRC[:1]
    eck.register(R)
    EXT = 'virtual, external effect: '
    R.add(Contract(T + 'Catalogue::allMasked', nargs=2, trusted='virtual: what the masked parts of the TOC refer to', modifies=(0, 1), ensures=masked))
    R.add(Contract(T + 'Store::uriBelongs', nargs=1, pure=True, trusted='virtual: a function of the store and the URI'))
    R.add(Contract(T + 'Store::type', nargs=0, trusted='virtual: constant of the store', value=lambda c: ('', stype(c.this.t))))

    def rm(c):
        v = caller(c)
        p = eck.path(psort(v), eck.raw(c.args[0]))
        return [('only files that no field refers to, or auxiliary files of such files only', Or(unreferenced(c, v.dataUsage, p), And(v.deleteAuxFiles.has(p), Not(v.keepAuxFiles.has(p)))))]
    R.add(Contract(T + 'Store::remove', nargs=4, trusted=EXT + 'removes one file', requires=lambda c: rm(c) + dry(c, c.args[3])))
    R.add(Contract(T + 'TocCatalogue::remove', nargs=4, trusted=EXT + 'removes one file', requires=lambda c: [('only index files without a field that is still found', unreferenced(c, caller(c).indexUsage, eck.raw(c.args[0])))] + dry(c, c.args[3])))
    R.add(Contract(T + 'Store::getAuxiliaryURIs', nargs=2, trusted='virtual: the auxiliary files of a data file', ensures=auxs))
    R.add(Contract(T + 'Catalogue::checkUID', nargs=0, trusted='virtual: permission check, changes nothing'))
    R.add(Contract(T + 'TocCommon::basePath', nargs=0, trusted='the directory of the database', value=lambda c: ('', basepath(ref(c)))))
    R.add(Contract(T + 'Config::<ctor>', nargs=0, trusted='configuration', ctor=True))
    R.add(Contract(T + 'Config::expandConfig', nargs=0, trusted='configuration'))
    R.add(Contract(T + 'TocHandler::<ctor>', nargs=2, trusted=EXT + 'opens the TOC', ctor=True))
    R.add(Contract(T + 'IndexStats::fieldsCount', nargs=0, trusted='virtual: verified for TocIndexStats', value=lambda c: ('the counter', cnt('fieldsCount', c.this))))
    R.add(Contract(T + 'IndexStats::duplicatesCount', nargs=0, trusted='virtual: verified for TocIndexStats', value=lambda c: ('the counter', cnt('duplicatesCount', c.this))))

    def clear(c):
        v = caller(c)
        m = v.indexStats
        i = eck.raw(c.args[0])
        return [('only indexes all of whose fields are superseded', And(m.has(i), cnt('fieldsCount', m[i]) == cnt('duplicatesCount', m[i])))] + dry(c, z3.BoolVal(True))
    R.add(Contract(T + 'TocHandler::writeClearRecord', nargs=1, trusted=EXT + 'masks an index', requires=clear))
    R.add(Contract(PV + 'purge', nargs=3, src=S, modifies=(), throws='any', ensures=lambda c: []))

    def refd(ps, D, s, n, done=None):
        has = dt_of(D).get(D, 0)
        u = z3.Const('pm_' + n, has.sort().domain())
        p = u if n == 'data' else dt_of(u).get(u, 0)
        return z3.Exists([u], And(z3.Select(has, u) if done is None else done(u), eck.pstr(eck.path(ps, p)) == s))

    def grown(ps, D, n, a, b, done=None):
        s = z3.Const('pg_s', STR)
        return [('exactly the masked %s files are known as well' % n, z3.ForAll([s], a.has(s) == Or(b.has(s), refd(ps, D, s, n, done)))),
                ('they count no field of theirs, the %s files known before keep their counts' % n, z3.ForAll([s], z3.Implies(a.has(s), a[s] == Ite(b.has(s), b[s], z3.IntVal(0)))))]

    def gathered(v, b, done):
        U = v.dataUsage
        ps = psort(v)
        us = opaque('eckit::URI')
        k, a, q = z3.Const('ga_k', STR), z3.Const('ga_a', us), z3.Const('ga_q', ps)
        mk = lambda k: eck.mkuri(stype(v.store.t), eck.asPath(k, ps), us)
        return [('only auxiliary files of data files that no field refers to are removed', z3.ForAll([q], z3.Implies(v.deleteAuxFiles.has(q), Or(b.deleteAuxFiles.has(q), z3.Exists([k, a], And(done(k), U[k] == 0, aux(mk(k), a), eck.path(ps, a) == q), patterns=[aux(mk(k), a)]))))),
                ('auxiliary files of the other data files are kept', z3.ForAll([k, a], z3.Implies(And(done(k), U[k] != 0, aux(mk(k), a)), v.keepAuxFiles.has(eck.path(ps, a))), patterns=[aux(mk(k), a)]))]

    def gtmpl(lp):
        b = lp.this_at(lp.entry)
        U = b.dataUsage
        idx = lp.ex.order_fns(STR)[2]
        out = []
        for cl, step in lp.counters:
            for k in (0, 1):
                out.append(('auxiliary files so far %d' % k, lambda st, cl=cl, k=k: gathered(lp.this_at(st), b, lambda x: And(U.has(x), idx(U.hasarr, x) < lp.c(st, cl)))[k][1]))
        return out
    R.add(Contract(PV + 'gatherAuxiliaryURIs', nargs=0, src=S, modifies=('this',), throws='any', tmpl=gtmpl, ensures=lambda c: gathered(c.this, c.old, lambda k: c.this.dataUsage.has(k)) + [('the counts are kept', c.this.dataUsage.t == c.old.dataUsage.t)]))

    def vis(c):
        v, o = c.this, c.old
        D, M = c.ex.st.ghost['masked_data'], c.ex.st.ghost['masked_meta']
        return [('the visit goes on', c.ret)] + grown(psort(v), D, 'data', v.dataUsage, o.dataUsage) + grown(psort(v), M, 'index', v.indexUsage, o.indexUsage)

    def vtmpl(lp):
        out = []
        b = lp.this_at(lp.entry)
        for n, g in (('data', 'masked_data'), ('index', 'masked_meta')):
            D = lp.entry.ghost.get(g)
            if D is None:
                continue
            has = dt_of(D).get(D, 0)
            idx = lp.ex.order_fns(has.sort().domain())[2]
            for cl, step in lp.counters:
                def f(st, k, cl=cl, D=D, n=n, has=has, idx=idx):
                    v = lp.this_at(st)
                    return grown(psort(v), D, n, getattr(v, n + 'Usage'), getattr(b, n + 'Usage'), lambda u: And(z3.Select(has, u), idx(has, u) < lp.c(st, cl)))[k][1]
                out += [('%s files so far %d' % (n, k), lambda st, k=k, f=f: f(st, k)) for k in (0, 1)]
        return out
    R.add(Contract(PV + 'visitDatabase', nargs=1, src=S, modifies=('this',), throws='any', tmpl=vtmpl, ensures=vis))


def stype(st):
    return z3.Function('spec_type', st.sort(), STR)(st)


def aux(u, a):
    return z3.Function('spec_aux', u.sort(), a.sort(), BOOL)(u, a)


def auxs(c):
    u = eck.raw(c.args[0])
    r = c.ret
    i, a = c.fresh('i', INT), c.fresh('a', opaque('eckit::URI'))
    pos = z3.Function('spec_auxpos', u.sort(), a.sort(), INT)
    return [('', z3.ForAll([i], z3.Implies(And(0 <= i, i < r.n), aux(u, r[i])), patterns=[z3.Select(r.arr, i)])),
            ('', z3.ForAll([a], z3.Implies(aux(u, a), And(pos(u, a) >= 0, pos(u, a) < r.n, r[pos(u, a)] == a)), patterns=[aux(u, a)]))]


def dry(c, doit):
    return [('nothing is changed in a dry run', z3.Implies(doit, z3.Const('arg2', BOOL)))]


def cnt(n, st):
    t = eck.raw(st)
    return z3.Function('spec_' + n, t.sort(), INT)(t)


def masked(c):
    c.ex.st.ghost['masked_meta'] = eck.raw(c.args[0])
    c.ex.st.ghost['masked_data'] = eck.raw(c.args[1])
    return []


# ---------------------------------------------------------------------------------------------- counting
NS = ('fieldsCount', 'fieldsSize', 'duplicatesCount', 'duplicatesSize')
CNT = z3.ArraySort(INT, INT)


def iuri(r):
    return z3.Function('spec_iuri', r.sort(), eck.uri())(r)


def furi(r):
    return z3.Function('spec_furi', INT, eck.uri())(r)


def flen(r):
    return z3.Function('spec_flen', INT, INT)(r)


def basepath(r):
    return z3.Function('spec_base', INT, opaque('eckit::LocalPathName'))(r)


LOCS = []


def loc(ex, base, sort=None):
    if sort is not None:
        LOCS[:] = [sort]
    return z3.Function('spec_iloc', base.t.sort(), LOCS[0])(base.t)


def ftype(v, n):
    d = dt_of(v.t)
    for i, l in enumerate(d.fields):
        if l.split('::')[-1].rstrip('_') == n:
            return d.ftys[i]
    raise Unsupported('annotation refers to ' + n)


def register_count(R):
    S = SRC[1:2]
    VIR = 'virtual: '
    VR = T + 'TocStatsReportVisitor::'
    LP = opaque('eckit::LocalPathName')
    R.add(Contract(T + 'IndexBase::location', nargs=0, trusted=VIR + 'where the index is', ensures=lambda c: [('', c.ret.t == loc(c.ex, c.this, c.ret.t.sort()))]))
    R.add(Contract(T + 'IndexLocation::uri', nargs=0, trusted=VIR + 'where the index is', value=lambda c: ('', iuri(c.this.t))))
    R.add(Contract(T + 'FieldLocation::uri', nargs=0, trusted='where the field is', value=lambda c: ('', furi(ref(c)))))
    R.add(Contract(T + 'FieldLocation::length', nargs=0, trusted='length of the field', value=lambda c: ('', flen(ref(c)))))
    R.add(Contract(T + 'Key::valuesToString', nargs=0, trusted='verified with C03', value=lambda c: ('', z3.Function('spec_kvals', c.this.t.sort(), STR)(c.this.t))))
    R.add(Contract(T + 'DbStats::operator+=', nargs=1, trusted='virtual: verified for TocDbStats', modifies=('this',)))
    for n in NS:
        def add(c, n=n):
            g = ghost(c, n, CNT)
            c.ex.st.ghost[n] = z3.Store(g, ref(c), z3.Select(g, ref(c)) + c.args[0])
            return []
        R.add(Contract(T + 'IndexStatsContent::add' + n[0].upper() + n[1:], nargs=1, trusted='virtual: verified for TocIndexStats', ensures=add))

    def datum(c):
        v, o, ex = c.this, c.old, c.ex
        cat = basepath(v.currentCatalogue)
        owned = lambda u: eck.same(eck.dirof(eck.path(eck.pname(), u)), eck.local(cat))
        idx = pointed(ex, o.currentIndex, ftype(o, 'currentIndex').to, True)
        base = pointed(ex, idx.content, ftype(idx, 'content').to, True)
        iu = iuri(loc(ex, base))
        fu = furi(c.pre[0].location)
        counted = Or(o.includeReferencedNonOwnedData, And(owned(iu), owned(fu)))
        u = lib.str_cat(ex, lib.str_cat(ex, z3.Function('spec_kvals', base.key.t.sort(), STR)(base.key.t), ex.lit('+')), c.pre[1])
        fresh = Not(o.active.has(u))
        s, r = c.fresh('s', STR), c.fresh('r', INT)
        G = lambda n, r: z3.Select(ex.st.ghost[n], r)
        G0 = lambda n, r: z3.Select(z3.Const('ghost0_' + n, CNT), r)
        r0 = v.indexStats[idx.t].content
        num = lambda b: Ite(b, z3.IntVal(1), z3.IntVal(0))
        add = dict(fieldsCount=z3.IntVal(1), fieldsSize=flen(c.pre[0].location), duplicatesCount=num(Not(fresh)), duplicatesSize=Ite(fresh, z3.IntVal(0), flen(c.pre[0].location)))
        out = [('data of other databases is left out when asked for', z3.Implies(Not(counted), And(v.t == o.t, z3.ForAll([r], And(*[G(n, r) == G0(n, r) for n in NS]))))),
               ('the field is seen from now on, and nothing else', z3.Implies(counted, z3.ForAll([s], v.active.has(s) == Or(o.active.has(s), s == u)))),
               ('the index has statistics', z3.Implies(counted, v.indexStats.has(idx.t))),
               ('an index keeps its statistics', z3.Implies(o.indexStats.has(idx.t), r0 == o.indexStats[idx.t].content))]
        for n, pth, a, b in (('data', fu, v.dataUsage, o.dataUsage), ('index', iu, v.indexUsage, o.indexUsage)):
            ps = eck.pstr(eck.path(eck.pname(), pth))
            out += [('the %s file is known, and no other is new' % n, z3.Implies(counted, z3.ForAll([s], a.has(s) == Or(b.has(s), s == ps)))),
                    ('it is in use by one field more exactly if the field is the first version seen (%s)' % n, z3.Implies(counted, z3.ForAll([s], z3.Implies(a.has(s), a[s] == Ite(b.has(s), b[s], z3.IntVal(0)) + num(And(s == ps, fresh))))))]
        for n in NS:
            out.append(('%s of the index grows as it should, others stay' % n, z3.Implies(counted, z3.ForAll([r], G(n, r) == G0(n, r) + Ite(r == r0, add[n], z3.IntVal(0))))))
        return out
    R.add(Contract(VR + 'visitDatum', nargs=2, sig='string', src=S, modifies=('this',), requires=lambda c: init(**{n: CNT for n in NS})(c) + [('a TOC catalogue', And(c.this.currentCatalogue != 0, z3.Function('dyncast_' + mangle('fdb5::TocCatalogue'), INT, BOOL)(c.this.currentCatalogue))), ('lengths are not negative', And(flen(c.pre[0].location) >= 0, flen(c.pre[0].location) < 2 ** 63))], throws='any', ensures=datum))


_reg1 = register


def register(R):
    _reg1(R)
    register_count(R)
