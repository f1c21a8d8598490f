"""Contracts of keys: the map from keyword to value with remembered order, and the matching of keys and requests."""
import z3
import recfun, lib
from contract import Contract, Inv, V
from execu import And, Or, Not
from sorts import STR

SRC = ['src/fdb5/database/BaseKey.cc', 'src/fdb5/database/Key.cc']
B = 'fdb5::BaseKey::'
K = 'fdb5::Key::'


def mp(v):
    """keyword -> value"""
    return v.field(lambda l, t: v.ex.T.kind(t) == 'map')


def nm(v):
    """insertion order"""
    return v.field(lambda l, t: v.ex.T.kind(t) == 'seq')


def q(c, sort=STR, n='k'):
    return z3.Const('%s?%d' % (n, c.ex.key('q')), sort)


def all_keys(c, m, fn):
    k = q(c)
    return z3.ForAll([k], z3.Implies(m.has(k), fn(k)))


def same_names(c):
    a, b = nm(c.this), nm(c.old)
    i = q(c, z3.IntSort(), 'i')
    return And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < b.n), a[i] == b[i])))


def appended(c, kw):
    a, b = nm(c.this), nm(c.old)
    i = q(c, z3.IntSort(), 'i')
    return And(a.n == b.n + 1, a[b.n] == kw, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < b.n), a[i] == b[i])))


def updated(c, kw, val):
    """the map is the old one with kw -> val"""
    a, b = mp(c.this), mp(c.old)
    k = q(c)
    return And(a.has(kw), a[kw] == val, z3.ForAll([k], And(a.has(k) == z3.Or(b.has(k), k == kw), z3.Implies(z3.And(b.has(k), k != kw), a[k] == b[k]))))


def erased(c, kw):
    a, b = mp(c.this), mp(c.old)
    k = q(c)
    return z3.ForAll([k], And(a.has(k) == z3.And(b.has(k), k != kw), z3.Implies(z3.And(b.has(k), k != kw), a[k] == b[k])))


def lower(c, v):
    return c.ex.uf('ext_eckit::StringTools::lower(const std::string &)', [v], mp(c.old).ty.args[1])


def register(R):
    S0, S1 = SRC[:1], SRC[1:]
    R.add(Contract(B + 'get', nargs=1, src=S0, throws=lambda c: [('the keyword is absent', Not(mp(c.old).has(c.pre[0])))],
                   ensures=lambda c: [('the value of the keyword', And(mp(c.this).has(c.pre[0]), c.ret == mp(c.this)[c.pre[0]]))]))
    R.add(Contract(B + 'keys', nargs=0, src=S0, ensures=lambda c: [('the set of keywords', (lambda k: z3.ForAll([k], c.ret.has(k) == mp(c.this).has(k)))(q(c)))]))
    R.add(Contract(B + 'clear', nargs=0, src=S0, modifies=('this',), ensures=lambda c: [('no keyword left', (lambda k: z3.ForAll([k], Not(mp(c.this).has(k))))(q(c))), ('no name left', nm(c.this).n == 0)]))
    R.add(Contract(B + 'set', nargs=2, src=S0, modifies=('this',),
                   throws=lambda c: [('names and values are out of step', nm(c.old).n != mp(c.old).n)],
                   ensures=lambda c: [('the value becomes the lower-case value, others are kept', updated(c, c.pre[0], lower(c, c.pre[1]))),
                                      ('order kept for a present keyword, appended for a new one', z3.If(mp(c.old).has(c.pre[0]), same_names(c), appended(c, c.pre[0])))]))
    def unset_names(c):
        a, b = nm(c.this), nm(c.old)
        i, j, p = z3.Int('ui'), z3.Int('uj'), q(c, z3.IntSort(), 'up')
        dist = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < b.n), b[i] != b[j]))
        there = z3.Exists([i], z3.And(i >= 0, i < b.n, b[i] == c.pre[0]))
        return [('the keyword leaves the order', z3.Implies(dist, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), a[i] != c.pre[0])))),
                ('exactly one name goes when the keyword was there', z3.If(there, a.n == b.n - 1, same_names(c))),
                ('the others keep their order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.If(z3.Exists([j], z3.And(j >= 0, j <= i, b[j] == c.pre[0])), a[i] == b[i + 1], a[i] == b[i]))))]
    R.add(Contract(B + 'unset', nargs=1, src=S0, modifies=('this',), ensures=lambda c: [('only that keyword is removed', erased(c, c.pre[0]))] + unset_names(c)))
    R.add(Contract(B + 'push', nargs=2, src=S0, modifies=('this',),
                   ensures=lambda c: [('the value is stored, others are kept', updated(c, c.pre[0], c.pre[1])), ('the keyword is appended to the order', appended(c, c.pre[0]))]))
    R.add(Contract(B + 'pop', nargs=1, src=S0, modifies=('this',), requires=lambda c: [('the key has names', nm(c.old).n > 0)],
                   throws=lambda c: [('the keyword is not the last one pushed', nm(c.old)[nm(c.old).n - 1] != c.pre[0])],
                   ensures=lambda c: [('only that keyword is removed', erased(c, c.pre[0])),
                                      ('the last name is removed', (lambda i: And(nm(c.this).n == nm(c.old).n - 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm(c.this).n), nm(c.this)[i] == nm(c.old)[i]))))(q(c, z3.IntSort(), 'i')))]))

    # matching
    def match_key(c):
        a, o = mp(c.this), mp(c.args[0])
        return [('every keyword of the other key is present with the same non-empty value', c.ret == all_keys(c, o, lambda k: And(a.has(k), a[k] == o[k], o[k] != c.ex.lit(''))))]
    R.add(Contract(K + 'match', nargs=1, sig='fdb5::Key &', src=S1, ensures=match_key))

    def validate(c):
        a, o = mp(c.this), mp(c.args[0])
        return [('a keyword of the other key is missing, or differs when values are compared', Not(all_keys(c, o, lambda k: And(a.has(k), Or(Not(c.args[1]), a[k] == o[k])))))]
    R.add(Contract(K + 'validateKeys', nargs=2, src=S1, throws=validate, ensures=lambda c: []))


    # requests (metkit): values of a keyword and the list of keywords are functions of the request
    def rvals(c, req, kw, empty):
        ty = nm(c.this).ty
        return V(c.ex, c.ex.uf('ext_metkit::mars::MarsRequest::values(const std::string &, bool) const', [req, kw, z3.BoolVal(empty)], ty), ty)

    def rparams(c, req):
        ty = nm(c.this).ty
        return V(c.ex, c.ex.uf('ext_metkit::mars::MarsRequest::params() const', [req], ty), ty)

    def among(c, s, v):
        return in_names(s, v)

    def match_req(c):
        a, req = mp(c.this), c.args[0]
        ps = rparams(c, req)
        i = q(c, z3.IntSort(), 'i')
        return [('every keyword of the request is present with one of the requested values',
                 c.ret == z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), And(a.has(ps[i]), among(c, rvals(c, req, ps[i], False), a[ps[i]])))))]
    R.add(Contract(K + 'match', nargs=1, sig='MarsRequest', src=S1, ensures=match_req))

    def partial(c):
        a, req = mp(c.this), c.args[0]
        def one(k):
            s = rvals(c, req, k, True)
            return Or(s.n == 0, among(c, s, a[k]))
        return [('no keyword of the key is excluded by the request', c.ret == all_keys(c, a, one))]
    R.add(Contract(K + 'partialMatch', nargs=1, src=S1, ensures=partial))
    R.add(Contract(B + 'pushFrom', nargs=1, src=S0, modifies=('this',), tmpl=push_tmpl, throws=lambda c: [('a name of the other key has no value', Not(all_names(c, nm(c.pre[0]), lambda k: mp(c.pre[0]).has(k))))],
                   ensures=lambda c: push_post(c)))
    R.add(Contract(B + 'popFrom', nargs=1, src=S0, modifies=('this',), tmpl=pop_tmpl, requires=lambda c: [('the key ends in the names of the other key', ends_in(c))], ensures=lambda c: pop_post(c)))

    R.add(Contract(K + 'valuesToString', nargs=0, src=S1, tmpl=join_tmpl,
                   throws=lambda c: [('names and values are out of step', Or(nm(c.old).n != mp(c.old).n, Not(all_names(c, nm(c.old), lambda k: mp(c.old).has(k)))))],
                   ensures=lambda c: [('the values in insertion order, separated by colons', c.ret == join(c.ex, c.this)(nm(c.this).t, mp(c.this).arr, nm(c.this).n))]))
    R.add(Contract('fdb5::TypesRegistry::lookupType', nargs=1, pure=True, trusted='type registry lookup: a function of registry and keyword'))
    for m in ('tidy', 'toKey'):
        R.add(Contract('fdb5::Type::' + m, nargs=1, pure=True, trusted='virtual: a function of the type and its argument'))

    for canon in (False, True):
        R.add(Contract('fdb5::TypedKey::' + ('canonical' if canon else 'tidy'), nargs=0, src=S1, tmpl=(lambda lp, canon=canon: tk_tmpl(lp, canon)),
                       throws=lambda c: [('a name has no value', Not(all_names(c, nm(c.old), lambda k: mp(c.old).has(k))))],
                       ensures=lambda c, canon=canon: tk_post(c, canon)))


def conv(ex, tk, canon):
    """(name, value) of keyword k after conversion"""
    reg = tk.field(lambda l, t: l.endswith('::registry_'))
    reg = reg.t if isinstance(reg, V) else reg
    f = ex.world.func(LOOKUP)
    tt = f.f.rt.strip()

    def typ(k):
        return V(ex, ex.uf('fn_fdb5::TypesRegistry::lookupType', [reg, k], tt), tt)

    def val(k):
        v = mp(tk)[k]
        t = typ(k)
        return z3.If(v == ex.lit(''), v, ex.uf('fn_fdb5::Type::' + ('toKey' if canon else 'tidy'), [t.t if isinstance(t, V) else t, v], mp(tk).ty.args[1]))
    return (lambda k: typ(k).do('alias')) if canon else (lambda k: k), val


LOOKUP = 'fdb5::TypesRegistry::lookupType(const std::string &) const'


def tk_tmpl(lp, canon):
    ex = lp.ex
    name, val = conv(ex, lp.this(), canon)
    n = nm(lp.this())
    i = z3.Int('ti')
    out = []
    res = [lf for lf in lp.leaves if lf.sort == n.arr.sort() and lf.kind == 'env']
    m = mp(lp.this())
    has = [lf for lf in lp.leaves if lf.sort == m.hasarr.sort()]
    mv = [lf for lf in lp.leaves if lf.sort == m.arr.sort()]
    for cl, step in lp.counters:
        for x in lp.ints():
            if x.id() != cl.id():
                out.append(('as many names', lambda st, x=x, cl=cl: lp.c(st, x) == lp.c(st, cl)))
        for x in has:
            out.append(('present', lambda st, x=x, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl)), z3.Select(lp.c(st, x), name(n[i]))), patterns=[n[i]])))
        for x in mv:
            out.append(('values', lambda st, x=x, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl), inj(n, name)), z3.Select(lp.c(st, x), name(n[i])) == val(n[i])), patterns=[n[i]])))
        for x in res:
            out.append(('names so far', lambda st, x=x, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl)), z3.Select(lp.c(st, x), i) == name(n[i])))))
    return out


def inj(n, name):
    i, j = z3.Int('ij1'), z3.Int('ij2')
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n.n), name(n[i]) != name(n[j])), patterns=[z3.MultiPattern(n[i], n[j])])


def tk_post(c, canon):
    name, val = conv(c.ex, c.this, canon)
    n, rm, rn = nm(c.this), mp(c.ret), nm(c.ret)
    i, k = z3.Int('tk'), z3.Const('tks', STR)
    return [('as many names', rn.n == n.n), ('every name is converted, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.n), And(rn[i] == name(n[i]), rm.has(name(n[i])))))),
            ('with its converted value', z3.Implies(inj(n, name), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.n), rm[name(n[i])] == val(n[i])))))]


def join(ex, key):
    f = getattr(ex, '_join', None)
    if f is None:
        N, M = nm(key), mp(key)
        I = z3.IntSort()

        def unf(n, m, i):
            v = z3.Select(m, V(ex, n, N.ty)[i - 1])
            return [z3.Implies(i <= 0, f(n, m, i) == ex.lit('')), z3.Implies(i == 1, f(n, m, i) == v), z3.Implies(i > 1, f(n, m, i) == lib.str_cat(ex, lib.str_cat(ex, f(n, m, i - 1), ex.lit(':')), v))]
        f = ex._join = recfun.RecFun('join', [N.t.sort(), M.arr.sort(), I], STR, unf)
    return f


def join_tmpl(lp):
    ex = lp.ex
    f = join(ex, lp.this())
    out = []
    for cl, step in lp.counters:
        for x in lp.leaves:
            if x.sort == STR:
                out.append(('joined so far', lambda st, x=x, cl=cl: lp.c(st, x) == f(nm(lp.this()).t, mp(lp.this()).arr, lp.c(st, cl))))
                out.append(('separator', lambda st, x=x, cl=cl: lp.c(st, x) == z3.If(lp.c(st, cl) == 0, ex.lit(''), ex.lit(':'))))
    return out


def all_names(c, s, fn):
    i = q(c, z3.IntSort(), 'i')
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), fn(s[i])))


def in_names(s, k, n=None):
    import lib
    n = s.n if n is None else n
    return lib.findpos(s.ex, s.t, z3.IntVal(0), n, k, s.ty.args[0]) < n


def push_tmpl(lp):
    """after i steps: the old key followed by the first i names of the other one, with their values"""
    a0, an0 = mp(lp.this()), nm(lp.this())
    o, on = mp(lp.arg(0)), nm(lp.arg(0))
    i, k = z3.Int('ti'), z3.Const('tk', STR)
    out = []
    for cl, step in lp.counters:
        n = lambda st, cl=cl: lp.c(st, cl)
        A = lambda st: (mp(lp.this_at(st)), nm(lp.this_at(st)))
        out.append(('as many names', lambda st, n=n: A(st)[1].n == an0.n + n(st)))
        out.append(('old names', lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < an0.n), A(st)[1][i] == an0[i]))))
        out.append(('new names', lambda st, n=n: z3.ForAll([i], z3.Implies(z3.And(i >= an0.n, i < an0.n + n(st)), A(st)[1][i] == on[i - an0.n]))))
        out.append(('values present', lambda st, n=n: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(st)), A(st)[0].has(on[i])), patterns=[on[i]])))
        out.append(('values', lambda st, n=n: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(st)), A(st)[0][on[i]] == o[on[i]]), patterns=[on[i]])))
        out.append(('others', lambda st, n=n: z3.ForAll([k], z3.Implies(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(st)), on[i] != k)), And(A(st)[0].has(k) == a0.has(k), z3.Implies(a0.has(k), A(st)[0][k] == a0[k]))))))
        out.append(('looked up', lambda st, n=n: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(st)), o.has(on[i])), patterns=[on[i]])))
    return out


def push_post(c):
    a, b, an, bn = mp(c.this), mp(c.old), nm(c.this), nm(c.old)
    o, on = mp(c.pre[0]), nm(c.pre[0])
    i, k = z3.Int('pi'), z3.Const('pk', STR)
    return [('the names of the other key follow the old ones', And(an.n == bn.n + on.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < bn.n), an[i] == bn[i])), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < on.n), an[bn.n + i] == on[i])))),
            ('its values override', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < on.n), And(a.has(on[i]), a[on[i]] == o[on[i]])))),
            ('other keywords are kept', z3.ForAll([k], z3.Implies(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < on.n), on[i] != k)), And(a.has(k) == b.has(k), z3.Implies(b.has(k), a[k] == b[k])))))]


def ends_in(c):
    b, o = nm(c.old), nm(c.pre[0])
    i = q(c, z3.IntSort(), 'i')
    return And(b.n >= o.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < o.n), b[b.n - o.n + i] == o[i])))


def pop_tmpl(lp):
    """after i steps: the last i names of the other key are gone"""
    a0, an0 = mp(lp.this()), nm(lp.this())
    on = nm(lp.arg(0))
    i, k = z3.Int('ti'), z3.Const('tk', STR)
    out = []
    for cl, step in lp.counters:
        n = lambda st, cl=cl: lp.c(st, cl)
        A = lambda st: (mp(lp.this_at(st)), nm(lp.this_at(st)))
        out.append(('fewer names', lambda st, n=n: A(st)[1].n == an0.n - n(st)))
        out.append(('old names', lambda st: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < A(st)[1].n), A(st)[1][i] == an0[i]))))
        out.append(('gone', lambda st, n=n: z3.ForAll([i], z3.Implies(z3.And(i >= on.n - n(st), i < on.n), Not(A(st)[0].has(on[i]))), patterns=[on[i]])))
        out.append(('others', lambda st, n=n: z3.ForAll([k], z3.Implies(z3.ForAll([i], z3.Implies(z3.And(i >= on.n - n(st), i < on.n), on[i] != k)), A(st)[0].has(k) == a0.has(k)))))
        out.append(('no new', lambda st, n=n: z3.ForAll([k], z3.Implies(A(st)[0].has(k), And(a0.has(k), A(st)[0][k] == a0[k])))))
    return out


def pop_post(c):
    a, b, an, bn = mp(c.this), mp(c.old), nm(c.this), nm(c.old)
    on = nm(c.pre[0])
    i, k = z3.Int('pi'), z3.Const('pk', STR)
    gone = lambda k: z3.Exists([i], z3.And(i >= 0, i < on.n, on[i] == k))
    return [('the names of the other key are gone from the end', And(an.n == bn.n - on.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < an.n), an[i] == bn[i])))),
            ('its keywords are gone', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < on.n), Not(a.has(on[i]))))),
            ('other keywords stay', z3.ForAll([k], z3.Implies(And(b.has(k), Not(gone(k))), a.has(k)))),
            ('nothing is added or changed', z3.ForAll([k], z3.Implies(a.has(k), And(b.has(k), a[k] == b[k]))))]
