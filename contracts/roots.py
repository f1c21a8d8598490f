"""Contracts of the choice of roots: which roots take part in what, where a database lives, what it is called."""
import z3
import recfun
from archive import ref
from sorts import map_dt, mangle, dt_of
from contract import Contract, V, pointed
from execu import And, Or, Not, Ite
from sorts import STR, INT, BOOL, seq_dt, set_dt
from eck import raw, pname, pstr, asPath

SRC = ['src/fdb5/toc/Root.cc', 'src/fdb5/toc/FileSpace.cc', 'src/fdb5/toc/RootManager.cc', 'src/fdb5/toc/FileSpaceHandler.cc', 'src/fdb5/toc/ExpverFileSpaceHandler.cc']
F = 'fdb5::'
LIST, RETRIEVE, ARCHIVE, WIPE, UNIQUE = 1, 2, 4, 8, 16


def isdir(p):
    """the path is a directory; the directories of roots do not come and go while the process runs"""
    return z3.Function('env_isdir', STR, BOOL)(p if p.sort() == STR else pstr(p))


def there(p):
    return z3.Function('env_exists', pname(), BOOL)(p)


def below(p, name):
    return z3.Function('spec_below', pname(), pname(), pname())(p, name)


def pstr_(p):
    return pstr(p)


def rpath(r):
    return raw(r.path)


def rexists(r):
    """what Root::exists says: remembered, or looked up"""
    return Ite(r.checked, r.exists, isdir(rpath(r)))


def word(r):
    from control import scal
    return scal(r.controlIdentifiers)


def register(R):
    import control, eck
    control.register(R)
    eck.register(R)
    for x in R.list:
        x.verify_ = False
    SR, SF, SM = SRC[:1], SRC[1:2], SRC[2:4]
    bv = control.bv
    def stat(c):
        # env_isdir: what the file system says of a path while the process runs
        m = z3.Function('fld_stat_st_mode', raw(c.args[1]).sort(), INT)(raw(c.args[1]))
        d = c.ex.tobv(m, 32) & z3.BitVecVal(0o170000, 32) == z3.BitVecVal(0o040000, 32)
        return [('whether there is a directory', isdir(c.args[0]) == And(c.ret == 0, d))]
    R.add(Contract('eckit::PathName::asString', nargs=0, trusted='the path as a string', value=lambda c: ('its string', pstr(raw(c.this)))))
    R.add(Contract('eckit::Stat::stat', nargs=2, trusted='the file system', modifies=(1,), ensures=stat))

    def rights(c):
        a = c.args
        w = bv(c, word(c.this))
        bit = lambda on, b: Ite(on, z3.BitVecVal(0, 16), z3.BitVecVal(b, 16))
        return [('exactly the rights not given are disabled', w == bit(a[2], LIST) | bit(a[3], RETRIEVE) | bit(a[4], ARCHIVE) | bit(a[5], WIPE)),
                ('the file space', c.this.filespace == a[1]),
                ('the directory has not been looked up', Not(c.this.checked))]
    R.add(Contract(F + 'Root::<ctor>', nargs=6, src=SR, ctor=True, ensures=rights))
    R.add(Contract(F + 'Root::exists', nargs=0, src=SR, memo=('checked_', 'exists_'), value=lambda c: ('as remembered, or whether it is a directory', rexists(c.this)), ensures=lambda c: [('the answer is remembered', And(c.this.checked, c.this.exists == c.ret))] if c.ret is not None and c.this is not c.old else []))
    R.add(Contract(F + 'Root::path', nargs=0, src=SR, value=lambda c: ('', rpath(c.this))))
    R.add(Contract(F + 'Root::filespace', nargs=0, src=SR, value=lambda c: ('', c.this.filespace)))

    def allowed(c, r, ident):
        return And(control.on(c, word(r), ident), rexists(r))

    class B:
        """a view for loop annotations"""
        def __init__(self, lp):
            self.ex, self.q = lp.ex, lp.ex.key('q')

        def tobv(self, *a):
            return self.ex.tobv(*a)

        def fresh(self, n):
            return z3.Int('%s?%d' % (n, self.q))

    def vec_is(c, vn, va, rs, ok, n):
        """(vn, va) are the paths of the first n roots that are ok, the first one first"""
        i, j, k = c.fresh('i'), c.fresh('j'), c.fresh('k')
        first = lambda j: And(0 <= j, j < n, ok(j), z3.ForAll([k], z3.Implies(And(0 <= k, k < j), Not(ok(k)))))
        return [('only roots that have the right and are there', z3.ForAll([i], z3.Implies(And(0 <= i, i < vn), z3.Exists([j], And(0 <= j, j < n, ok(j), z3.Select(va, i) == rpath(rs[j])))))),
                ('all roots that have the right and are there', z3.ForAll([j], z3.Implies(And(0 <= j, j < n, ok(j)), z3.Exists([i], And(0 <= i, i < vn, z3.Select(va, i) == rpath(rs[j])))))),
                ('the first one first', z3.Implies(vn > 0, z3.Exists([j], And(first(j), z3.Select(va, 0) == rpath(rs[j])))))]

    def en_tmpl(lp):
        c = B(lp)
        rs = lp.this().roots
        ok = lambda j: allowed(c, rs[j], lp.arg(0))
        arrs = [x for x in lp.leaves if x.kind == 'env' and x.sort == z3.ArraySort(INT, pname())]
        out = []
        for a in arrs:
            ln = [x for x in lp.ints() if x.key == a.key]
            for cl, step in lp.counters:
                for l in ln:
                    if l.id() == cl.id():
                        continue
                    out.append(('no negative length', lambda st, l=l: lp.c(st, l) >= 0))
                    for q in range(3):
                        out.append(('roots so far', lambda st, q=q, l=l, a=a, cl=cl: vec_is(c, lp.c(st, l), lp.c(st, a), rs, ok, lp.c(st, cl))[q][1]))
        return out

    def en_vec(c):
        rs = c.this.roots
        return vec_is(c, c.ret.n, c.ret.arr, rs, lambda j: allowed(c, rs[j], c.args[0]), rs.n)
    R.add(Contract(F + 'FileSpace::enabled', nargs=1, src=SF, requires=lambda c: [('an identifier', control.word(c.pre[0]))], tmpl=en_tmpl, ensures=en_vec))

    # sets of roots
    def set_is(c, new, old, rs, ok, n):
        x, j = c.fresh('x', STR), c.fresh('j')
        return [('exactly the roots that qualify are added', z3.ForAll([x], z3.Select(new, x) == Or(z3.Select(old, x), z3.Exists([j], And(0 <= j, j < n, ok(j), x == pstr(rpath(rs[j])))))))]

    class BS(B):
        def fresh(self, n, so=INT):
            return z3.Const('%s?%d' % (n, self.q), so)

    def set_tmpl(okf, ai):
        def t(lp):
            c = BS(lp)
            rs = lp.this().roots
            ok = lambda j: okf(c, rs[j], lp)
            hs = z3.ArraySort(STR, BOOL)
            return [('roots so far', lambda st, a=a, cl=cl: set_is(c, lp.c(st, a), lp.e(a), rs, ok, lp.c(st, cl))[0][1]) for a in lp.leaves if a.sort == hs for cl, step in lp.counters]
        return t
    hasof = lambda v: v.hasarr
    R.add(Contract(F + 'FileSpace::enabled', nargs=2, src=SF, requires=lambda c: [('an identifier', control.word(c.pre[0]))], modifies=(1,), tmpl=set_tmpl(lambda c, r, lp: allowed(c, r, lp.arg(0)), 1),
                   ensures=lambda c: set_is(c, c.args[1].hasarr, c.pre[1].hasarr, c.this.roots, lambda j: allowed(c, c.this.roots[j], c.args[0]), c.this.roots.n)))
    R.add(Contract(F + 'FileSpace::all', nargs=1, src=SF, modifies=(0,), tmpl=set_tmpl(lambda c, r, lp: rexists(r), 0),
                   ensures=lambda c: set_is(c, c.args[0].hasarr, c.pre[0].hasarr, c.this.roots, lambda j: rexists(c.this.roots[j]), c.this.roots.n)))

    # what a database directory is called and whether it is there
    E = 'eckit: '
    R.add(Contract('eckit::PathName::operator/', nargs=1, trusted=E + 'a path below another', value=lambda c: ('', z3.Function('spec_below', pname(), STR, pname())(raw(c.this), raw(c.args[0])))))
    R.add(Contract('eckit::PathName::exists', nargs=0, trusted=E + 'the path exists', value=lambda c: ('', there(raw(c.this)))))

    def full(c, r, db):
        return z3.Function('full_db', pname(), STR, pname())(rpath(r), db)
    R.add(Contract(F + 'getFullDB', nargs=2, trusted='the directory of that name below the root, in any case of letters', ensures=lambda c: [('f', raw(c.ret) == z3.Function('full_db', pname(), STR, pname())(raw(c.args[0]), c.args[1]))]))

    RE = {}

    def re_match(re, x):
        return z3.Function('re_match', raw(re).sort(), STR, BOOL)(raw(re), raw(x))
    R.add(Contract('eckit::Regex::match', nargs=1, trusted=E + 'whether the text matches the expression', value=lambda c: ('', re_match(c.this, c.args[0]))))
    bel = lambda p, s: z3.Function('spec_below', pname(), STR, pname())(p, s)
    R.add(Contract('eckit::operator/', nargs=2, trusted=E + 'a path below another', value=lambda c: ('', bel(raw(c.args[0]), raw(c.args[1])))))

    # existing databases
    def names_file(ex):
        """the name of the file that allows a database in several roots"""
        g = [t for k, t in ex.st.env.items() if isinstance(k, tuple) and k[0] == 'g' and str(k[1]).endswith('controlfile_lookup')]
        lut = ex.world.recs.get('dummy')
        so = map_dt(INT, STR)
        t = g[0] if g else z3.Const('global_' + mangle('fdb5::controlfile_lookup'), so.sort)
        return so.get(t, 0), so.get(t, 1)

    def known(c):
        h, v = names_file(c.ex)
        c.ex.assume_note('the table of control files has an entry for every control identifier')
        c.ex.assume(z3.Select(h, UNIQUE))
        return []

    def has(c, r, db):
        f = full(c, r, pstr(raw(db)))
        return And(control.on(c, word(r), z3.IntVal(LIST)), rexists(r), there(f), there(bel(f, c.ex.lit('toc'))))

    def multi(c, r, db):
        return there(bel(full(c, r, pstr(raw(db))), z3.Select(names_file(c.ex)[1], UNIQUE)))

    def is_one(c, tp, rs, db, n, has_):
        """the path and the rights are those of a root that has the database"""
        i = c.fresh('i')
        return z3.Exists([i], And(0 <= i, i < n, has_(i), raw(tp.directory) == full(c, rs[i], pstr(raw(db))), word(tp) == word(rs[i])))

    def ex_tmpl(lp):
        c = BS(lp)
        rs, db = lp.this().roots, lp.arg(1)
        has_ = lambda i: has(c, rs[i], db)
        non = lambda i: And(has_(i), Not(multi(c, rs[i], db)))
        i, j = c.fresh('i'), c.fresh('j')
        out = []
        for cl, step in lp.counters:
            p = lambda st, cl=cl: lp.c(st, cl)
            inr = lambda st, i: And(0 <= i, i < p(st))
            for x in lp.ints():
                if x.id() == cl.id() or x.kind != 'env':
                    continue
                v = lambda st, x=x: lp.c(st, x)
                out += [('count', lambda st, v=v: v(st) >= 0),
                        ('none', lambda st, v=v, inr=inr: z3.Implies(v(st) == 0, z3.ForAll([i], z3.Implies(inr(st, i), Not(non(i)))))),
                        ('one', lambda st, v=v, inr=inr: z3.Implies(v(st) == 1, z3.Exists([i], And(inr(st, i), non(i), z3.ForAll([j], z3.Implies(And(inr(st, j), j != i), Not(non(j)))))))),
                        ('several', lambda st, v=v, inr=inr: z3.Implies(v(st) > 1, z3.Exists([i, j], And(inr(st, i), inr(st, j), i != j, non(i), non(j)))))]
            for x in lp.leaves:
                if x.sort == BOOL and x.kind == 'env':
                    out.append(('found', lambda st, x=x, inr=inr: lp.c(st, x) == z3.Exists([i], And(inr(st, i), has_(i)))))
                    out.append(('found one', lambda st, x=x, p=p: z3.Implies(lp.c(st, x), is_one(c, lp.arg_at(st, 2), rs, db, p(st), has_))))
        return out

    def ex_post(c):
        rs, db = c.this.roots, c.args[1]
        has_ = lambda i: has(c, rs[i], db)
        non = lambda i: And(has_(i), Not(multi(c, rs[i], db)))
        i, j = c.fresh('i'), c.fresh('j')
        inr = lambda i: And(0 <= i, i < rs.n)
        return [('found exactly when a root that can be listed has it', c.ret == z3.Exists([i], And(inr(i), has_(i)))),
                ('one of the roots that has it, with the rights of that root', z3.Implies(c.ret, is_one(c, c.args[2], rs, db, rs.n, has_))),
                ('not in several roots, unless that is allowed', z3.ForAll([i, j], z3.Implies(And(inr(i), inr(j), non(i), non(j)), i == j)))]

    def ex_thr(c):
        rs, db = c.this.roots, c.pre[1]
        i, j = c.fresh('i'), c.fresh('j')
        non = lambda i: And(has(c, rs[i], db), Not(multi(c, rs[i], db)))
        return [('it is in several roots', z3.Exists([i, j], And(0 <= i, i < j, j < rs.n, non(i), non(j))))]
    R.add(Contract(F + 'FileSpace::existsDB', nargs=3, src=SF, modifies=(2,), requires=known, tmpl=ex_tmpl, throws=ex_thr, ensures=ex_post))
    R.add(Contract(F + 'FileSpace::match', nargs=1, src=SF, value=lambda c: ('what the expression of the space says', re_match(c.this.re, c.args[0]))))

    # where a database goes
    def chosen(c, handler, key, space, db):
        return z3.Function('chosen_root', STR, raw(key).sort(), raw(space).sort(), pname())(handler, raw(key), raw(space))
    HN = z3.Function('handler_name', INT, STR)
    R.add(Contract(F + 'FileSpaceHandler::lookup', nargs=2, trusted='the handler of that name', refret=True, ensures=lambda c: [('h', And(c.ret > 0, HN(c.ret) == c.args[0]))]))
    R.add(Contract(F + 'FileSpaceHandler::selectFileSystem', nargs=2, trusted='virtual: the root the handler chooses', ensures=lambda c: [('r', raw(c.ret) == chosen(c, HN(ref(c)), c.args[0], c.args[1], None))]))

    def place(c, sp, key, db, r):
        """r is where the database of the key goes in the space"""
        rs = sp.roots
        i = c.fresh('i')
        has_ = lambda i: has(c, rs[i], db)
        any_ = z3.Exists([i], And(0 <= i, i < rs.n, has_(i)))
        return [('a database that is there already stays where it is', z3.Implies(any_, is_one(c, r, rs, db, rs.n, has_))),
                ('a new one goes below the root the handler of the space chooses', z3.Implies(Not(any_), And(raw(r.directory) == bel(chosen(c, sp.handler, key, sp, db), pstr(raw(db))), word(r) == 0)))]
    R.add(Contract(F + 'FileSpace::filesystem', nargs=3, src=SF, throws='any', requires=known, ensures=lambda c: place(c, c.this, c.args[1], c.args[2], c.ret)))

    def first(c):
        sp = c.args[1]
        rs = sp.roots
        i, k = c.fresh('i'), c.fresh('k')
        ok = lambda i: allowed(c, rs[i], z3.IntVal(ARCHIVE))
        return [('the first root that fields may be archived to', z3.Exists([i], And(0 <= i, i < rs.n, ok(i), z3.ForAll([k], z3.Implies(And(0 <= k, k < i), Not(ok(k)))), raw(c.ret) == rpath(rs[i]))))]

    def first_thr(c):
        rs = c.args[1].roots
        i = c.fresh('i')
        return [('no root may be archived to', z3.ForAll([i], z3.Implies(And(0 <= i, i < rs.n), Not(allowed(c, rs[i], z3.IntVal(ARCHIVE))))))]
    R.add(Contract(F + 'FileSpace::roots', nargs=0, trusted='used in messages', ensures=lambda c: []))
    R.add(Contract(F + 'detail::First::selectFileSystem', nargs=2, src=SRC[3:4], throws=first_thr, ensures=first))

    # the roots of all spaces
    import keys
    L = len(R.list)
    keys.register(R)
    for x in R.list[L:]:
        x.verify_ = False

    # roots of experiments
    X = F + 'ExpverFileSpaceHandler::'
    R.add(Contract(X + 'load', nargs=0, trusted='reads the file of the experiments', modifies=(('f', 'table_'),), throws='any', ensures=lambda c: []))
    R.add(Contract(X + 'append', nargs=2, trusted='what the file says of the experiment, or the root proposed, from now on in the file', ensures=lambda c: []))
    R.add(Contract(X + 'select', nargs=2, trusted='the root another handler proposes', ensures=lambda c: []))

    R.add(Contract(F + 'expver_is_valid', nargs=1, trusted='the text has the form of an experiment', pure=True, ensures=lambda c: []))

    def expver(c):
        e = keys.mp(c.pre[0])[c.ex.lit('expver')]
        o, n = c.old.table, c.this.table
        return [('an experiment that is known keeps its root', z3.Implies(o.has(e), raw(c.ret) == raw(o[e]))),
                ('the root of the experiment is remembered', And(n.has(e), raw(n[e]) == raw(c.ret)))]
    R.add(Contract(X + 'selectFileSystem', nargs=2, src=SRC[4:], memo=('table_',), throws='any', ensures=expver))

    def kstr(c, k):
        return keys.join(c.ex, k)(keys.nm(k).t, keys.mp(k).arr, keys.nm(k).n)

    def sp_root(c, sps, sel, ident, n, x):
        """x is a root of one of the first n spaces selected, with the right and there"""
        s, j = c.fresh('s'), c.fresh('j')
        return z3.Exists([s, j], And(0 <= s, s < n, sel(sps[s]), 0 <= j, j < sps[s].roots.n, allowed(c, sps[s].roots[j], ident), x == pstr(rpath(sps[s].roots[j]))))

    def spaces_tmpl(ident, selof):
        def t(lp):
            c = BS(lp)
            sps = lp.this().spacesTable
            sel = selof(c, lp)
            x = c.fresh('x', STR)
            s, j = c.fresh('s'), c.fresh('j')
            r = sps[s].roots[j]
            out = []
            for a in lp.leaves:
                if a.sort == z3.ArraySort(STR, BOOL) and a.kind == 'env':
                    for cl, step in lp.counters:
                        out.append(('only roots so far', lambda st, a=a, cl=cl: z3.ForAll([x], z3.Implies(z3.Select(lp.c(st, a), x), sp_root(c, sps, sel, z3.IntVal(ident), lp.c(st, cl), x)), patterns=[z3.Select(lp.c(st, a), x)])))
                        out.append(('all roots so far', lambda st, a=a, cl=cl: z3.ForAll([s, j], z3.Implies(And(0 <= s, s < lp.c(st, cl), sel(sps[s]), 0 <= j, j < sps[s].roots.n, allowed(c, r, z3.IntVal(ident))), z3.Select(lp.c(st, a), pstr(rpath(r)))), patterns=[r.t])))
            return out
        return t

    def spaces_post(ident, selof):
        def post(c):
            sps = c.this.spacesTable
            x, i = c.fresh('x', STR), c.fresh('i')
            sel = selof(c, c)
            isr = lambda x: sp_root(c, sps, sel, z3.IntVal(ident), sps.n, x)
            return [('only roots of the spaces that match, with the right and there', z3.ForAll([i], z3.Implies(And(0 <= i, i < c.ret.n), z3.Exists([x], And(isr(x), raw(c.ret[i]) == asPath(x, pname())))))),
                    ('all roots of the spaces that match, with the right and there', z3.ForAll([x], z3.Implies(isr(x), z3.Exists([i], And(0 <= i, i < c.ret.n, raw(c.ret[i]) == asPath(x, pname()))))))]
        return post
    one = lambda c, l: (lambda sp: re_match(sp.re, kstr(c, l.arg(0) if hasattr(l, 'arg') else l.args[0])))
    for n, ident in (('canArchiveRoots', ARCHIVE), ('canMoveToRoots', WIPE)):
        R.add(Contract(F + 'RootManager::' + n, nargs=1, src=SM, tmpl=spaces_tmpl(ident, one), throws='any', ensures=spaces_post(ident, one)))

    def any_key(c, l):
        ks = l.arg(0) if hasattr(l, 'arg') else l.args[0]
        kt = ks.ty.args[0]

        def sel(sp):
            k = c.fresh('k', ks.hasarr.sort().domain())
            s = kstr(c, V(c.ex, k, kt))
            return z3.Exists([k], And(ks.has(k), Or(s == c.ex.lit(''), re_match(sp.re, s))))
        return sel
    def visit_tmpl(lp):
        out = spaces_tmpl(LIST, any_key)(lp)
        ks = lp.arg(0)
        kt = ks.ty.args[0]
        c = BS(lp)
        x, i = c.fresh('x', STR), c.fresh('i')
        nth = lp.ex.order_axioms(ks.hasarr)[1]
        for a in lp.leaves:
            if a.sort == z3.ArraySort(STR, BOOL) and a.kind == 'env':
                for cl, step in lp.counters:
                    out.append(('only strings of the keys so far', lambda st, a=a, cl=cl: z3.ForAll([x], z3.Implies(z3.Select(lp.c(st, a), x), z3.Exists([i], And(0 <= i, i < lp.c(st, cl), x == kstr(c, V(lp.ex, nth(ks.hasarr, i), kt))))), patterns=[z3.Select(lp.c(st, a), x)])))
                    out.append(('all strings of the keys so far', lambda st, a=a, cl=cl: z3.ForAll([i], z3.Implies(And(0 <= i, i < lp.c(st, cl)), z3.Select(lp.c(st, a), kstr(c, V(lp.ex, nth(ks.hasarr, i), kt)))), patterns=[nth(ks.hasarr, i)])))
        return out
    R.add(Contract(F + 'RootManager::visitableRoots', nargs=1, sig='std::set', src=SM, tmpl=visit_tmpl, throws='any', ensures=spaces_post(LIST, any_key)))

    def one_or_empty(c, l):
        s = kstr(c, l.arg(0) if hasattr(l, 'arg') else l.args[0])
        return lambda sp: Or(s == c.ex.lit(''), re_match(sp.re, s))
    R.add(Contract(F + 'RootManager::visitableRoots', nargs=1, sig='(const fdb5::Key &', src=SM, throws='any', ensures=spaces_post(LIST, one_or_empty)))

    # names of databases
    NM = {}

    def nm_match(c, n, key, missing):
        re, m = n.keyregex, keys.mp(key)
        so = (re.t.sort(), m.t.sort())
        if so not in NM:
            rty, mty = re.ty, m.ty

            def unf(r, m, x):
                R_, M_ = V(c.ex, r, rty), V(c.ex, m, mty)
                k = z3.Const('nm_k', STR)
                return [NM[so](r, m, x) == And(M_.n == R_.n, z3.ForAll([k], z3.Implies(M_.has(k), And(R_.has(k), Or(And(x != z3.Const('nullstr', STR), M_[k] == x), re_match(R_[k], M_[k]))))))]
            NM[so] = recfun.RecFun('name_matches', [so[0], so[1], STR], BOOL, unf)
        return NM[so](re.t, m.t, missing)
    N = F + 'DbPathNamer::'
    R.add(Contract(N + 'match', nargs=2, src=SM, ensures=lambda c: [('as many keywords, and each value matches or is not known', c.ret == nm_match(c, c.this, c.args[0], c.args[1]))]))

    def sub_req(c):
        k = c.fresh('k', STR)
        re, m = c.this.keyregex, keys.mp(c.args[1])
        return [('the keywords are those of the name', z3.Implies(c.args[2] != z3.Const('nullstr', STR), z3.ForAll([k], z3.Implies(m.has(k), re.has(k)))))]
    NULL = z3.Const('nullstr', STR)

    def fmt(c, n, key, missing):
        d = dt_of(raw(n))
        ty = [t for l, t in zip(d.fields, d.ftys) if l.endswith('::format_')][0]
        return c.ex.uf('fn_' + N + 'substituteVars', [raw(n), n.format, raw(key), missing], ty)
    R.add(Contract(N + 'substituteVars', nargs=3, src=SM, pure=True, requires=sub_req, throws='any', ensures=lambda c: []))
    R.add(Contract(N + 'name', nargs=1, src=SM, throws='any', value=lambda c: ('the format with the values of the key', fmt(c, c.this, c.args[0], NULL))))

    def part_req(c):
        k = c.fresh('k', STR)
        re, m = c.this.keyregex, keys.mp(c.args[0])
        return [('the keywords are those of the name', z3.ForAll([k], z3.Implies(m.has(k), re.has(k))))]
    R.add(Contract(N + 'namePartial', nargs=2, src=SM, throws='any', requires=part_req, value=lambda c: ('the format with the values of the key', fmt(c, c.this, c.args[0], c.args[1]))))
    M = F + 'RootManager::'

    def dbname(c, this, key, r):
        ns = this.dbPathNamers
        i, k = c.fresh('i'), c.fresh('k')
        m = lambda i: nm_match(c, ns[i], key, NULL)
        fst = lambda i: And(0 <= i, i < ns.n, m(i), z3.ForAll([k], z3.Implies(And(0 <= k, k < i), Not(m(k)))))
        return [('the first format whose expressions match the key', z3.ForAll([i], z3.Implies(fst(i), r == fmt(c, ns[i], key, NULL)))),
                ('or else the values of the key', z3.Implies(Not(z3.Exists([i], And(0 <= i, i < ns.n, m(i)))), r == kstr(c, key)))]

    def first_tmpl(lp):
        c = BS(lp)
        ns, key = lp.this().dbPathNamers, lp.arg(0)
        k = c.fresh('k')
        return [('no earlier format matches', lambda st, cl=cl: z3.ForAll([k], z3.Implies(And(0 <= k, k < lp.c(st, cl)), Not(nm_match(c, ns[k], key, NULL))), patterns=[ns[k].t])) for cl, step in lp.counters]
    R.add(Contract(M + 'dbPathName', nargs=1, src=SM, tmpl=first_tmpl, throws='any', ensures=lambda c: dbname(c, c.this, c.args[0], c.ret)))

    def override(c):
        """the directory that replaces all configuration, for tests"""
        g = [t for k, t in c.ex.st.env.items() if isinstance(k, tuple) and k[0] == 'g' and str(k[1]).startswith('static:') and is_str(t)]
        return g

    def is_str(t):
        return hasattr(t, 'sort') and t.sort() == STR

    def direct(c):
        key, r = c.args[0], c.ret
        sps = c.this.spacesTable
        i, k, n = c.fresh('i'), c.fresh('k'), c.fresh('n', STR)
        s = kstr(c, key)
        m = lambda i: re_match(sps[i].re, s)
        fst = lambda i: And(0 <= i, i < sps.n, m(i), z3.ForAll([k], z3.Implies(And(0 <= k, k < i), Not(m(k)))))
        nm = And(*[g for _, g in dbname(c, c.this, key, n)])
        pl = lambda i: And(*[g for _, g in place(c, sps[i], key, V(c.ex, asPath(n, pname()), None), r)])
        ov = override(c)
        off = And(*[o == c.ex.lit('') for o in ov])
        return [('in the first space that matches the values of the key, under the name of the database', z3.Implies(off, z3.Exists([i, n], And(fst(i), nm, pl(i)))))]
    R.add(Contract(M + 'directory', nargs=1, src=SM, throws='any', requires=known, ensures=direct))

    def matching(c, ns, key, x):
        """number of formats before the k-th that match"""
        if 'cnt' not in NM:
            nty = ns.ty

            def unf(a, kk, x, k):
                N_, K_ = V(c.ex, a, nty), V(c.ex, kk, key.ty)
                P = NM['cnt']
                one = lambda k: z3.If(nm_match(c, N_[k], K_, x), 1, 0)
                return [z3.Implies(k <= 0, P(a, kk, x, k) == 0), z3.Implies(k > 0, P(a, kk, x, k) == P(a, kk, x, k - 1) + one(k - 1)), z3.Implies(k >= 0, P(a, kk, x, k + 1) == P(a, kk, x, k) + one(k))]
            NM['cnt'] = recfun.RecFun('names_before', [raw(ns).sort(), raw(key).sort(), STR, INT], INT, unf)
        return lambda k: NM['cnt'](raw(ns), raw(key), x, k)

    def poss(c):
        ns, r, key = c.this.dbPathNamers, c.ret, c.args[0]
        j = c.fresh('j')
        m = lambda j: nm_match(c, ns[j], key, c.args[1])
        f = lambda j: fmt(c, ns[j], key, c.args[1])
        cnt = matching(c, ns, key, c.args[1])
        return [('a name for every format that matches, and one from the values', r.n == cnt(ns.n) + 1),
                ('names in the order of the formats', z3.ForAll([j], z3.Implies(And(0 <= j, j < ns.n, m(j)), And(0 <= cnt(j), cnt(j) < r.n - 1, r[cnt(j)] == f(j))), patterns=[ns[j].t]))]

    def poss_tmpl(lp):
        c = BS(lp)
        ns, key, x = lp.this().dbPathNamers, lp.arg(0), lp.arg(1)
        j = c.fresh('j')
        m = lambda j: nm_match(c, ns[j], key, x)
        f = lambda j: fmt(c, ns[j], key, x)
        cnt = matching(c, ns, key, x)
        out = []
        for a in lp.leaves:
            if a.kind == 'env' and a.sort == z3.ArraySort(INT, STR):
                for l in lp.ints():
                    if l.key != a.key:
                        continue
                    for cl, step in lp.counters:
                        if cl.id() == l.id():
                            continue
                        n = lambda st, l=l: lp.c(st, l)
                        out += [('a name for every format so far', lambda st, n=n, cl=cl: And(n(st) >= 0, n(st) == cnt(lp.c(st, cl)))),
                                ('names in the order of the formats so far', lambda st, n=n, a=a, cl=cl: z3.ForAll([j], z3.Implies(And(0 <= j, j < lp.c(st, cl), m(j)), And(0 <= cnt(j), cnt(j) < n(st), z3.Select(lp.c(st, a), cnt(j)) == f(j))), patterns=[ns[j].t]))]
        return out
    R.add(Contract(M + 'possibleDbPathNames', nargs=2, src=SM, throws='any', tmpl=poss_tmpl, ensures=poss))
