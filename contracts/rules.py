"""Contracts of the rules of the schema: matchers, predicates, rules."""
import z3
import lib
from contract import Contract, V, pointed
from execu import And, Or, Not
from sorts import STR, INT, BOOL
from keys import mp, nm, q, in_names
import keys

D = 'src/fdb5/rules/'
SRC = [D + x for x in ('MatchValue.cc', 'MatchAny.cc', 'ExcludeAll.cc', 'MatchAlways.cc', 'MatchOptional.cc', 'MatchHidden.cc', 'Matcher.cc', 'Predicate.cc', 'Rule.cc', 'Schema.cc')]
N = 'fdb5::'


def setof(v):
    return v.field(lambda l, t: v.ex.T.kind(t) == 'set')


def strof(v):
    return v.field(lambda l, t: v.ex.T.kind(t) == 'str')


def seqof(v):
    return v.field(lambda l, t: v.ex.T.kind(t) == 'seq')


def ref(c):
    lv = c.thislv
    if lv is None or lv.root[0] != 'h':
        from sorts import Unsupported
        raise Unsupported('virtual call on an object without identity')
    return lv.path[0][1]


# a matcher, known only by the pointer to it
def m_val(m, v):
    return z3.Function('matcher_match_value', INT, STR, BOOL)(m, v)


def m_key(m, k, key):
    return z3.Function('matcher_match_key', INT, STR, key.sort(), BOOL)(m, k, key)


def m_opt(m):
    return z3.Function('matcher_optional', INT, BOOL)(m)


def m_value(m, k, key):
    return z3.Function('matcher_value', INT, STR, key.sort(), STR)(m, k, key)


def m_has(m, k, key):
    return z3.Function('matcher_has_value', INT, STR, key.sort(), BOOL)(m, k, key)


def register(R):
    keys.register(R)
    for c in R.list:
        c.verify_ = False
    T = 'virtual: the matcher decides; each matcher of the repository is verified against its own contract'
    R.add(Contract(N + 'Matcher::match', nargs=1, trusted=T, value=lambda c: ('', m_val(ref(c), c.args[0]))))
    R.add(Contract(N + 'Matcher::match', nargs=2, trusted=T, value=lambda c: ('', m_key(ref(c), c.args[0], c.args[1].t))))
    R.add(Contract(N + 'Matcher::optional', nargs=0, trusted=T, value=lambda c: ('', m_opt(ref(c)))))
    R.add(Contract(N + 'Matcher::value', nargs=2, trusted=T, may_throw=[('eckit::SeriousBug', lambda c: Not(m_has(ref(c), c.args[1], c.args[0].t)))], value=lambda c: ('', m_value(ref(c), c.args[1], c.args[0].t))))

    def present(c, pred):
        m = mp(c.args[1])
        return And(m.has(c.args[0]), pred(m[c.args[0]]))
    S = {x: [D + x + '.cc'] for x in ('MatchValue', 'MatchAny', 'ExcludeAll', 'MatchAlways', 'MatchOptional', 'MatchHidden')}
    for cls, f in (('MatchValue', lambda c, v: v == strof(c.this)), ('MatchAny', lambda c, v: setof(c.this).has(v)), ('ExcludeAll', lambda c, v: Not(setof(c.this).has(v))), ('MatchAlways', lambda c, v: z3.BoolVal(True)), ('MatchOptional', lambda c, v: z3.BoolVal(True))):
        R.add(Contract(N + cls + '::match', nargs=1, src=S[cls], value=lambda c, f=f: ('the value is one the rule allows', f(c, c.args[0]))))
        if cls in ('MatchValue', 'MatchAny'):
            R.add(Contract(N + cls + '::match', nargs=2, src=S[cls], value=lambda c, f=f: ('the key has the keyword with a value the rule allows', present(c, lambda v: f(c, v)))))
        elif cls == 'ExcludeAll':
            R.add(Contract(N + cls + '::match', nargs=2, src=S[cls], value=lambda c, f=f: ('the key has no excluded value', Or(Not(mp(c.args[1]).has(c.args[0])), f(c, mp(c.args[1])[c.args[0]])))))
        else:
            R.add(Contract(N + cls + '::match', nargs=2, src=S[cls], value=lambda c: ('any key', z3.BoolVal(True))))
    for cls, o in (('MatchOptional', True), ('Matcher', False)):
        pass
    SO = S['MatchOptional']
    R.add(Contract(N + 'MatchOptional::optional', nargs=0, src=SO, value=lambda c: ('optional', z3.BoolVal(True))))
    R.add(Contract(N + 'MatchOptional::fill', nargs=3, src=SO, modifies=(0,), ensures=fill_opt))
    register_rules(R)
    register_schema2(R)
    register_fill(R)
    register_schema(R)
    register_find(R)
    R.add(Contract(N + 'MatchOptional::value', nargs=2, src=SO, ensures=lambda c: [('the value of the key, empty when absent', c.ret == z3.If(mp(c.args[0]).has(c.args[1]), mp(c.args[0])[c.args[1]], c.ex.lit('')))]))


def fill_opt(c):
    a, b = c.args[0], c.pre[0]
    k = q(c)
    i = q(c, INT, 'i')
    kw, v = c.pre[1], c.pre[2]
    same = And(nm(a).n == nm(b).n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm(b).n), nm(a)[i] == nm(b)[i])), z3.ForAll([k], And(mp(a).has(k) == mp(b).has(k), z3.Implies(mp(b).has(k), mp(a)[k] == mp(b)[k]))))
    pushed = And(nm(a).n == nm(b).n + 1, nm(a)[nm(b).n] == kw, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm(b).n), nm(a)[i] == nm(b)[i])), z3.ForAll([k], And(mp(a).has(k) == Or(mp(b).has(k), k == kw), mp(a).has(kw), mp(a)[kw] == v, z3.Implies(And(mp(b).has(k), k != kw), mp(a)[k] == mp(b)[k]))))
    return [('an empty value is left out, another one is appended', z3.If(v == c.ex.lit(''), same, pushed))]


# rules -----------------------------------------------------------------------------------------------------------
PRED = {}


def predty(ex):
    t = PRED.get(id(ex.world))
    if t is None:
        t = PRED[id(ex.world)] = ex.world.recs['fdb5::Predicate'].t
    return t


def preds(v):
    """the predicates of a rule"""
    return v.field(lambda l, t: v.ex.T.kind(t) == 'seq' and 'Predicate' in str(t.s if t.s else t.args))


def pr(ex, p):
    """keyword and matcher of a predicate"""
    o = pointed(ex, p, predty(ex))
    return strof(o), o.field(lambda l, t: ex.T.kind(t) in ('ptr', 'uptr') or 'unique_ptr' in str(t.s))


def register_rules(R):
    SP = [D + 'Predicate.cc']
    kw = lambda c: strof(c.this)
    mt = lambda c: c.this.field(lambda l, t: 'unique_ptr' in str(t.s))
    P = N + 'Predicate::'
    R.add(Contract(P + 'match', nargs=1, sig='fdb5::Key &', src=SP, value=lambda c: ('what the matcher says of the key', m_key(mt(c), kw(c), c.args[0].t))))
    R.add(Contract(P + 'match', nargs=1, sig='string &', src=SP, value=lambda c: ('what the matcher says of the value', m_val(mt(c), c.args[0]))))
    R.add(Contract(P + 'optional', nargs=0, src=SP, value=lambda c: ('what the matcher says', m_opt(mt(c)))))
    R.add(Contract(P + 'value', nargs=1, src=SP, throws=lambda c: [('the matcher has no value for the key', Not(m_has(mt(c), kw(c), c.pre[0].t)))], may_throw=[('eckit::SeriousBug', lambda c: Not(m_has(mt(c), kw(c), c.args[0].t)))],
                   value=lambda c: ('the value the matcher gives the keyword', m_value(mt(c), kw(c), c.args[0].t))))
    SR = [D + 'Rule.cc']

    def all_preds(c, f):
        ps = preds(c.this)
        i = q(c, INT, 'i')
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), f(*pr(c.ex, ps[i]))), patterns=[ps[i]])
    R.add(Contract(N + 'Rule::match', nargs=1, src=SR, value=lambda c: ('every predicate matches the key', all_preds(c, lambda k, m: m_key(m, k, c.args[0].t)))))


def register_find(R):
    SR = [D + 'Rule.cc']

    def found(c):
        ps = preds(c.this)
        i = q(c, INT, 'i')
        f = c.pre[0]
        m = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), m_key(*[pr(c.ex, ps[i])[j] for j in (1, 0)], f.t)), patterns=[ps[i]])
        return [('a key is found when the field has enough keywords and every predicate matches', c.ret.some == And(mp(f).n >= ps.n, m))] + found_key(c, lambda i: m_value(pr(c.ex, ps[i])[1], pr(c.ex, ps[i])[0], f.t))
    R.add(Contract(N + 'Rule::findMatchingKey', nargs=1, sig='fdb5::Key &', src=SR, throws='any', ensures=found, tmpl=find_tmpl))


    def found_values(c):
        ps = preds(c.this)
        i = q(c, INT, 'i')
        v = c.pre[0]
        m = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), m_val(pr(c.ex, ps[i])[1], v[i])), patterns=[ps[i]])
        return [('a key is found when the rule has predicates and each matches its value', c.ret.some == And(ps.n > 0, m))] + found_key(c, lambda i: v[i])
    R.add(Contract(N + 'Rule::findMatchingKey', nargs=1, sig='vector', src=SR, throws=lambda c: [('fewer values than predicates', c.pre[0].n < preds(c.old).n)], ensures=found_values, tmpl=lambda lp: find_tmpl(lp, lambda i, ps: lp.arg(0)[i], False)))

    def found_missing(c):
        ps = preds(c.this)
        i, j = q(c, INT, 'i'), q(c, INT, 'j')
        f, r = c.pre[0], c.ret.val
        kwd = lambda i: pr(c.ex, ps[i])[0]
        inr = lambda i: z3.And(i >= 0, i < ps.n)
        m = z3.ForAll([i], z3.Implies(inr(i), Or(Not(mp(f).has(kwd(i))), m_val(pr(c.ex, ps[i])[1], mp(f)[kwd(i)]))), patterns=[ps[i]])
        inj = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < ps.n), kwd(i) != kwd(j)), patterns=[z3.MultiPattern(ps[i], ps[j])])
        return [('a key is found when no predicate excludes the value of the field', c.ret.some == m),
                ('it has the keywords of the rule, in order', z3.Implies(c.ret.some, And(nm(r).n == ps.n, z3.ForAll([i], z3.Implies(inr(i), And(nm(r)[i] == kwd(i), mp(r).has(kwd(i)))))))),
                ('with the values of the field, or the placeholder', z3.Implies(And(c.ret.some, inj), z3.ForAll([i], z3.Implies(inr(i), mp(r)[kwd(i)] == z3.If(mp(f).has(kwd(i)), mp(f)[kwd(i)], missing(c, 1))))))]
    R.add(Contract(N + 'Rule::findMatchingKey', nargs=2, src=SR, ensures=found_missing, tmpl=lambda lp: find_tmpl(lp, lambda i, ps: z3.If(mp(lp.arg(0)).has(pr(lp.ex, ps[i])[0]), mp(lp.arg(0))[pr(lp.ex, ps[i])[0]], lp.arg(1)), False)))


def missing(c, i):
    return c.pre[i]


def find_tmpl(lp, value=None, field=True):
    """the key built so far holds the keywords of the predicates passed, with the values their matchers give"""
    ex = lp.ex
    ps = preds(lp.this())
    f = lp.arg(0) if field else None
    kty = ex.world.recs['fdb5::Key'].t
    ft = V(ex, z3.Const('any_key', ex.T.sort(kty)), kty)
    i, j = z3.Int('fi'), z3.Int('fj')
    kwd = lambda i: pr(ex, ps[i])[0]
    kt = mp(ft)
    inj = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < ps.n), kwd(i) != kwd(j)), patterns=[z3.MultiPattern(ps[i], ps[j])])
    out = []
    names = [x for x in lp.leaves if x.sort == nm(ft).arr.sort() and x.kind == 'env']
    has = [x for x in lp.leaves if x.sort == kt.hasarr.sort() and x.kind == 'env']
    vs = [x for x in lp.leaves if x.sort == kt.arr.sort() and x.kind == 'env']
    val = (lambda i: value(i, ps)) if value else (lambda i: m_value(pr(ex, ps[i])[1], kwd(i), f.t))
    for cl, step in lp.counters:
        for x in lp.ints():
            if x.id() != cl.id():
                out.append(('as many names', lambda st, x=x, cl=cl: lp.c(st, x) == lp.c(st, cl)))
        for x in names:
            out.append(('names so far', lambda st, x=x, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl)), z3.Select(lp.c(st, x), i) == kwd(i)))))
        for x in has:
            out.append(('present', lambda st, x=x, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl)), z3.Select(lp.c(st, x), kwd(i))), patterns=[ps[i]])))
        for x in vs:
            out.append(('values', lambda st, x=x, cl=cl: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < lp.c(st, cl), inj), z3.Select(lp.c(st, x), kwd(i)) == val(i)), patterns=[ps[i]])))
    return out


def typed(ex, rule):
    """name and value a typed keyword gets in the registry of the rule"""
    reg = rule.field(lambda l, t: 'TypesRegistry' in str(t.s))
    reg = reg.t if isinstance(reg, V) else reg
    tt = ex.world.func(keys.LOOKUP).f.rt.strip()
    typ = lambda k: V(ex, ex.uf('fn_fdb5::TypesRegistry::lookupType', [reg, k], tt), tt)

    def val(k, v, st):
        t = typ(k)
        return z3.If(v == ex.lit(''), v, ex.uf('fn_fdb5::Type::toKey', [t.t if isinstance(t, V) else t, v], st))
    return (lambda k: typ(k).do('alias')), val


def found_key(c, value):
    """the key of a match: one keyword per predicate, in order, with the canonical form of its value"""
    ps = preds(c.this)
    i, j = z3.Int('fk_i'), z3.Int('fk_j')
    r = c.ret.val
    name, val = typed(c.ex, c.this)
    kwd = lambda i: pr(c.ex, ps[i])[0]
    inr = lambda i: z3.And(i >= 0, i < ps.n)
    inj = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < ps.n), name(kwd(i)) != name(kwd(j))), patterns=[z3.MultiPattern(ps[i], ps[j])])
    return [('the key found has the keywords of the rule, in order', z3.Implies(c.ret.some, And(nm(r).n == ps.n, z3.ForAll([i], z3.Implies(inr(i), And(nm(r)[i] == name(kwd(i)), mp(r).has(name(kwd(i)))))))))
            , ('each with the canonical form of its value', z3.Implies(And(c.ret.some, inj), z3.ForAll([i], z3.Implies(inr(i), mp(r)[name(kwd(i))] == val(kwd(i), value(i), mp(r).ty.args[1])))))]


def m_skip(m):
    return z3.Function('matcher_skips_empty', INT, BOOL)(m)


def register_fill(R):
    T = 'virtual: a matcher appends the keyword with its value, or (optional ones) leaves out an empty value'
    def fill(c):
        return fill_post(c, c.pre[1], c.pre[2], m_skip(ref(c)))
    R.add(Contract(N + 'Matcher::fill', nargs=3, trusted=T, modifies=(0,), ensures=fill))
    R.add(Contract(N + 'Predicate::fill', nargs=2, src=[D + 'Predicate.cc'], modifies=(0,), ensures=lambda c: fill_post(c, strof(c.this), c.pre[1], m_skip(c.this.field(lambda l, t: 'unique_ptr' in str(t.s))))))
    SR = [D + 'Rule.cc']

    def nonempty(c, vs):
        i = q(c, INT, 'i')
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vs.n), vs[i] != c.ex.lit('')))

    def tryfill(c):
        ps, vs = preds(c.this), c.pre[1]
        a, b = c.args[0], c.pre[0]
        i, j = z3.Int('tf_i'), z3.Int('tf_j')
        kwd = lambda i: pr(c.ex, ps[i])[0]
        ne = nonempty(c, vs)
        inj = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < ps.n), kwd(i) != kwd(j)), patterns=[z3.MultiPattern(ps[i], ps[j])])
        return [('one value per predicate is taken, fewer are not', z3.Implies(vs.n <= ps.n, c.ret == (vs.n == ps.n))),
                ('the keywords follow in the order of the rule', z3.Implies(And(vs.n == ps.n, ne), And(nm(a).n == nm(b).n + ps.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm(b).n), nm(a)[i] == nm(b)[i])), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), And(nm(a)[nm(b).n + i] == kwd(i), mp(a).has(kwd(i)))))))),
                ('with their values', z3.Implies(And(vs.n == ps.n, ne, inj), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), mp(a)[kwd(i)] == vs[i]))))]
    R.add(Contract(N + 'Rule::tryFill', nargs=2, src=SR, modifies=(0,), throws=lambda c: [('fewer values than predicates or more than one too many', Or(c.pre[1].n < preds(c.old).n, c.pre[1].n > preds(c.old).n + 1))], ensures=tryfill, tmpl=tryfill_tmpl))


def fill_post(c, kw, v, skip):
    a, b = c.args[0], c.pre[0]
    k = q(c)
    i = q(c, INT, 'i')
    same = And(nm(a).n == nm(b).n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm(b).n), nm(a)[i] == nm(b)[i])), z3.ForAll([k], And(mp(a).has(k) == mp(b).has(k), z3.Implies(mp(b).has(k), mp(a)[k] == mp(b)[k]))))
    pushed = And(nm(a).n == nm(b).n + 1, nm(a)[nm(b).n] == kw, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm(b).n), nm(a)[i] == nm(b)[i])), z3.ForAll([k], And(mp(a).has(k) == Or(mp(b).has(k), k == kw), mp(a).has(kw), mp(a)[kw] == v, z3.Implies(And(mp(b).has(k), k != kw), mp(a)[k] == mp(b)[k]))))
    return [('the keyword is appended with the value; an empty optional one is left out', z3.If(And(v == c.ex.lit(''), skip), same, pushed))]


def tryfill_tmpl(lp):
    ex = lp.ex
    ps, vs = preds(lp.this()), lp.arg(1)
    b = lp.arg(0)
    i, j = z3.Int('tt_i'), z3.Int('tt_j')
    kwd = lambda i: pr(ex, ps[i])[0]
    ne = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vs.n), vs[i] != ex.lit('')), patterns=[vs[i]])
    inj = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < ps.n), kwd(i) != kwd(j)), patterns=[z3.MultiPattern(ps[i], ps[j])])
    out = []

    def A(st):
        return V(ex, st.env[('arg', 0)], st.tys[('arg', 0)])
    g = And(vs.n == ps.n, ne)
    for cl, step in lp.counters:
        n = lambda st, cl=cl: lp.c(st, cl)
        out += [('as many names', lambda st, n=n: z3.Implies(g, nm(A(st)).n == nm(b).n + n(st))),
                ('old names', lambda st, n=n: z3.Implies(g, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nm(b).n), nm(A(st))[i] == nm(b)[i])))),
                ('new names', lambda st, n=n: z3.Implies(g, z3.ForAll([i], z3.Implies(z3.And(i >= nm(b).n, i < nm(b).n + n(st)), nm(A(st))[i] == kwd(i - nm(b).n))))),
                ('present', lambda st, n=n: z3.Implies(g, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(st)), mp(A(st)).has(kwd(i))), patterns=[ps[i]]))),
                ('values', lambda st, n=n: z3.Implies(And(g, inj), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n(st)), mp(A(st))[kwd(i)] == vs[i]), patterns=[ps[i]])))]
        for x in lp.ints():
            if x.id() != cl.id() and x.kind == 'env':
                out.append(('in step', lambda st, x=x, cl=cl: z3.Implies(vs.n <= ps.n, lp.c(st, x) == lp.c(st, cl))))
    return out


def register_schema(R):
    SS = [D + 'Schema.cc']
    rules = lambda v, cls: v.field(lambda l, t: v.ex.T.kind(t) == 'seq' and cls in str(t.s if t.s else t.args))

    def matches(c, p, cls, key):
        o = pointed(c.ex, p, c.ex.world.recs[cls].t)
        ps = preds(o)
        i = q(c, INT, 'i')
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), (lambda km: m_key(km[1], km[0], key.t))(pr(c.ex, ps[i]))), patterns=[ps[i]]), o

    def first(c):
        rs = rules(c.this, 'RuleDatabase')
        i, j = z3.Int('mr_i'), z3.Int('mr_j')
        m = lambda i: matches(c, rs[i], 'fdb5::RuleDatabase', c.pre[0])[0]
        return [('the first database rule whose predicates all match', z3.Exists([i], z3.And(i >= 0, i < rs.n, m(i), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), Not(m(j))), patterns=[rs[j]]), c.ret.t == pointed(c.ex, rs[i], c.ex.world.recs['fdb5::RuleDatabase'].t).t)))]
    def none(c):
        rs = rules(c.old, 'RuleDatabase')
        i = z3.Int('mr_i')
        return [('no database rule matches', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < rs.n), Not(matches(c, rs[i], 'fdb5::RuleDatabase', c.pre[0])[0])), patterns=[rs[i]]))]
    R.add(Contract(N + 'Schema::matchingRule', nargs=1, src=SS, throws=none, ensures=first))


def register_schema2(R):
    SS = [D + 'Schema.cc']
    seqf = lambda v, cls: v.field(lambda l, t: v.ex.T.kind(t) == 'seq' and cls in str(t.s if t.s else t.args))

    def mtch(ex, ps, key):
        i = z3.Int('m2_i')
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ps.n), (lambda km: m_key(km[1], km[0], key.t))(pr(ex, ps[i]))), patterns=[ps[i]])

    def parts(c, v):
        ex = c.ex
        T = lambda n: ex.world.recs[n].t
        rs = seqf(v, 'RuleDatabase')
        db = lambda i: pointed(ex, rs[i], T('fdb5::RuleDatabase'))
        ix = lambda i, k: pointed(ex, seqf(db(i), 'RuleIndex')[k], T('fdb5::RuleIndex'))
        n = lambda i: seqf(db(i), 'RuleIndex').n
        md = lambda i: mtch(ex, preds(db(i)), c.pre[0])
        mi = lambda i, k: mtch(ex, preds(ix(i, k)), c.pre[1])
        dat = lambda i, k: pointed(ex, ix(i, k).field(lambda l, t: 'RuleDatum' in str(t.s)), T('fdb5::RuleDatum'))
        return rs, n, md, mi, dat, db

    def nopair(j, l, n, md, mi, db):
        return Or(Not(md(j)), z3.ForAll([l], z3.Implies(And(l >= 0, l < n(j)), Not(mi(j, l))), patterns=[seqf(db(j), 'RuleIndex')[l]]))

    def first2(c):
        rs, n, md, mi, dat, db = parts(c, c.this)
        i, k, j, l = z3.Ints('f2_i f2_k f2_j f2_l')
        seqi = lambda j: seqf(db(j), 'RuleIndex')
        earlier = z3.ForAll([j, l], z3.Implies(And(j >= 0, l >= 0, l < n(j), Or(j < i, And(j == i, l < k))), Not(And(md(j), mi(j, l)))), patterns=[z3.MultiPattern(rs[j], seqi(j)[l])])
        return [('the rule of the first database and index rules whose predicates all match', z3.Exists([i, k], And(i >= 0, i < rs.n, k >= 0, k < n(i), md(i), mi(i, k), c.ret.t == dat(i, k).t)))]

    def none2(c):
        rs, n, md, mi, dat, db = parts(c, c.old)
        j, l = z3.Ints('f2_j f2_l')
        return [('no pair of rules matches', z3.ForAll([j], z3.Implies(And(j >= 0, j < rs.n), nopair(j, l, n, md, mi, db)), patterns=[rs[j]]))]
    R.add(Contract(N + 'Schema::matchingRule', nargs=2, src=SS, throws='any', ensures=first2))
    R.add(Contract(N + 'Rule::fill', nargs=2, src=[D + 'Rule.cc'], modifies=(0,), throws='any', ensures=lambda c: []))
