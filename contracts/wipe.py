"""Contracts of the wipe: what is marked, what is kept safe, what is removed."""
import z3
import lib
from contract import Contract, V, pointed, raw
from execu import And, Or, Not
from sorts import STR, INT, BOOL

SRC = ['src/fdb5/database/WipeState.cc']
W = 'fdb5::WipeState::'
S = 'fdb5::StoreWipeState::'


def q(c, s, n='q'):
    return c.fresh(n, s)


def usort(v):
    return v.safeURIs.hasarr.sort().domain()


def dele(v):
    m = v.deleteURIs
    return lambda t, u: And(m.has(t), m[t].has(u))


def allu(c, f, v=None):
    u = c.fresh('u', usort(v or c.this))
    return z3.ForAll([u], f(u))


def alltu(c, f):
    m = c.this.deleteURIs
    t, u = c.fresh('t', m.hasarr.sort().domain()), c.fresh('u', usort(c.this))
    return z3.ForAll([t, u], f(t, u))


def kept(c, *names):
    return [('%s kept' % n, getattr(c.this, n).t == getattr(c.old, n).t) for n in names]


def someset(v, u):
    m = v.deleteURIs
    t = z3.Const('ws_t', m.hasarr.sort().domain())
    return z3.Exists([t], And(m.has(t), m[t].has(u)))


def counters_done(lp, has):
    idx = lp.ex.order_fns(has.sort().domain())[2]
    return [(cl, (lambda st, k, cl=cl: And(z3.Select(has, k), idx(has, k) < lp.c(st, cl)))) for cl, step in lp.counters]


def del_tmpl(lp):
    """no type of the map so far holds the URI"""
    m = lp.this().deleteURIs
    u = lp.arg(0)
    k = z3.Const('dt_k', m.hasarr.sort().domain())
    return [('types so far', lambda st, d=d: z3.ForAll([k], z3.Implies(d(st, k), Not(m[k].has(u))))) for cl, d in counters_done(lp, m.hasarr)]


def insts(st, lv):
    pass


def mark_tmpl(lp):
    s = lp.arg(1)
    ty = lp.arg(0)
    b = lp.this_at(lp.entry)
    t, u = z3.Const('mt_t', INT), z3.Const('mt_u', s.hasarr.sort().domain())
    out = []
    for cl, d in counters_done(lp, s.hasarr):
        out += [('marked so far', lambda st, d=d: z3.ForAll([t, u], dele(lp.this_at(st))(t, u) == Or(dele(b)(t, u), And(t == ty, d(st, u), Not(b.safeURIs.has(u)))))),
                ('safe kept', lambda st: lp.this_at(st).safeURIs.t == b.safeURIs.t),
                ('others kept', lambda st: lp.this_at(st).unknownURIs.t == b.unknownURIs.t)]
    return out


def sane_tmpl(lp):
    v = lp.this()
    u = z3.Const('sn_u', usort(v))
    out = []
    for has, bad in ((v.unknownURIs.hasarr, lambda u: Or(v.safeURIs.has(u), someset(v, u))), (v.safeURIs.hasarr, lambda u: someset(v, u))):
        for cl, d in counters_done(lp, has):
            out.append(('checked so far', lambda st, d=d, bad=bad: z3.ForAll([u], z3.Implies(d(st, u), Not(bad(u))))))
    return out


def insane(c):
    v = c.old
    u = c.fresh('u', usort(v))
    return z3.Exists([u], Or(And(v.unknownURIs.has(u), Or(v.safeURIs.has(u), someset(v, u))), And(v.safeURIs.has(u), someset(v, u))))


def none_safe(v, c):
    u = c.fresh('u', usort(v))
    t = c.fresh('t', v.deleteURIs.hasarr.sort().domain())
    return z3.ForAll([t, u], z3.Implies(dele(v)(t, u), Not(v.safeURIs.has(u))))


def register(R):
    R.add(Contract(W + 'isMarkedSafe', nargs=1, src=SRC, value=lambda c: ('the URI is in the set of safe URIs', c.this.safeURIs.has(c.args[0]))))
    R.add(Contract(W + 'isMarkedForDeletion', nargs=1, src=SRC, tmpl=del_tmpl, value=lambda c: ('the URI is marked for some type', someset(c.this, c.args[0]))))

    def mark1(c):
        ty, x = c.pre
        return [('only the given URI is added, and only if it is not safe', alltu(c, lambda t, u: dele(c.this)(t, u) == Or(dele(c.old)(t, u), And(t == ty, u == x, Not(c.old.safeURIs.has(u)))))),
                ('no safe URI becomes marked', z3.Implies(none_safe(c.old, c), none_safe(c.this, c)))] + kept(c, 'safeURIs', 'unknownURIs')
    R.add(Contract(W + 'markForDeletion', nargs=2, sig='const eckit::URI &', src=SRC, modifies=('this',), ensures=mark1))

    def markn(c):
        ty, s = c.pre
        return [('exactly the given URIs that are not safe are added', alltu(c, lambda t, u: dele(c.this)(t, u) == Or(dele(c.old)(t, u), And(t == ty, s.has(u), Not(c.old.safeURIs.has(u)))))),
                ('no safe URI becomes marked', z3.Implies(none_safe(c.old, c), none_safe(c.this, c)))] + kept(c, 'safeURIs', 'unknownURIs')
    R.add(Contract(W + 'markForDeletion', nargs=2, sig='set', src=SRC, modifies=('this',), tmpl=mark_tmpl, ensures=markn))
    R.add(Contract(W + 'markAsSafe', nargs=1, src=SRC, modifies=('this',), ensures=lambda c: [('the given URIs are safe as well', allu(c, lambda u: c.this.safeURIs.has(u) == Or(c.old.safeURIs.has(u), c.pre[0].has(u))))] + kept(c, 'deleteURIs', 'unknownURIs')))
    R.add(Contract(W + 'insertUnrecognised', nargs=1, src=SRC, modifies=('this',), ensures=lambda c: [('the URI is unknown as well', allu(c, lambda u: c.this.unknownURIs.has(u) == Or(c.old.unknownURIs.has(u), u == c.pre[0])))] + kept(c, 'deleteURIs', 'safeURIs')))
    R.add(Contract(W + 'sanityCheck', nargs=0, src=SRC, tmpl=sane_tmpl, throws=lambda c: [('a URI is in two groups', insane(c))], ensures=lambda c: [('the groups are disjoint', Not(insane(c)))]))
    R.add(Contract(W + 'unrecognisedURIs', nargs=0, src=SRC, value=lambda c: ('the unknown URIs', c.this.unknownURIs)))
    R.add(Contract(W + 'safeURIs', nargs=0, src=SRC, value=lambda c: ('the safe URIs', c.this.safeURIs)))
    # stores
    R.add(Contract('fdb5::Signature::isSigned', nargs=0, src=SRC, value=lambda c: ('there is a signature', c.this.sig != 0)))
    R.add(Contract(S + 'failIfSigned', nargs=0, src=SRC, throws=lambda c: [('signed', (c.old.signature.sig != 0))], may_throw=[('eckit::SeriousBug', lambda c: (c.this.signature.sig != 0))], ensures=lambda c: [('not signed', Not((c.this.signature.sig != 0)))]))
    en = lambda c, n: z3.IntVal(enum_value(c.ex, n))

    def included(c):
        x = c.pre[0]
        return [('exactly the URI is marked as data, unless it is safe', alltu(c, lambda t, u: dele(c.this)(t, u) == Or(dele(c.old)(t, u), And(t == en(c, 'STORE'), u == x, Not(c.old.safeURIs.has(u)))))), ('not signed', Not((c.old.signature.sig != 0)))] + kept(c, 'safeURIs', 'unknownURIs', 'missingURIs')
    R.add(Contract(S + 'includeData', nargs=1, src=SRC, modifies=('this',), throws=lambda c: [('signed', (c.old.signature.sig != 0))], ensures=included))
    R.add(Contract(S + 'excludeData', nargs=1, src=SRC, modifies=('this',), throws=lambda c: [('signed', (c.old.signature.sig != 0))],
                   ensures=lambda c: [('exactly the URI becomes safe', allu(c, lambda u: c.this.safeURIs.has(u) == Or(c.old.safeURIs.has(u), u == c.pre[0]))), ('not signed', Not((c.old.signature.sig != 0)))] + kept(c, 'deleteURIs', 'unknownURIs', 'missingURIs')))
    R.add(Contract(S + 'insertAuxiliaryURI', nargs=1, src=SRC, modifies=('this',),
                   ensures=lambda c: [('exactly the URI is marked as auxiliary, unless it is safe', alltu(c, lambda t, u: dele(c.this)(t, u) == Or(dele(c.old)(t, u), And(t == en(c, 'STORE_AUX'), u == c.pre[0], Not(c.old.safeURIs.has(u))))))] + kept(c, 'safeURIs', 'unknownURIs', 'missingURIs')))
    R.add(Contract(S + 'markAsMissing', nargs=1, src=SRC, modifies=('this',),
                   ensures=lambda c: [('exactly the URI is no longer marked as data', alltu(c, lambda t, u: dele(c.this)(t, u) == And(dele(c.old)(t, u), Not(And(t == en(c, 'STORE'), u == c.pre[0]))))),
                                      ('exactly the URI becomes missing', allu(c, lambda u: c.this.missingURIs.has(u) == Or(c.old.missingURIs.has(u), u == c.pre[0])))] + kept(c, 'safeURIs', 'unknownURIs')))

    def missing_tmpl(lp):
        b = lp.this_at(lp.entry)
        m = b.deleteURIs
        e = z3.IntVal(enum_value(lp.ex, 'STORE'))
        u = z3.Const('ms_u', usort(b))
        return [('missing so far', lambda st, d=d: z3.ForAll([u], lp.this_at(st).missingURIs.has(u) == Or(b.missingURIs.has(u), d(st, u)))) for cl, d in counters_done(lp, z3.If(m.has(e), m[e].hasarr, z3.K(usort(b), z3.BoolVal(False))))]
    R.add(Contract(S + 'markAllMissing', nargs=0, src=SRC, modifies=('this',), tmpl=missing_tmpl,
                   ensures=lambda c: [('no data stays marked, the rest does', alltu(c, lambda t, u: dele(c.this)(t, u) == And(dele(c.old)(t, u), t != en(c, 'STORE')))),
                                      ('the data becomes missing', allu(c, lambda u: c.this.missingURIs.has(u) == Or(c.old.missingURIs.has(u), dele(c.old)(en(c, 'STORE'), u))))] + kept(c, 'safeURIs', 'unknownURIs')))
    for n, e in (('includedDataURIs', 'STORE'), ('dataAuxiliaryURIs', 'STORE_AUX')):
        R.add(Contract(S + n, nargs=0, src=SRC, ensures=lambda c, e=e: [('the URIs marked with that type', allu(c, lambda u: c.ret.has(u) == dele(c.this)(en(c, e), u)))]))
    register2(R)


def enum_value(ex, n):
    for nm, v in ENUM:
        if nm == n:
            return v
    raise KeyError(n)


def _enum():
    import re, os
    root = os.environ.get('VERIF_REPO', '/repo')
    t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(root + '/src/fdb5/api/helpers/WipeIterator.h').read(), flags=re.S)
    m = re.search(r'enum\s+(?:class\s+)?(?:WipeElementType\w*)[^{]*\{(.*?)\}', t, re.S)
    out, v = [], 0
    for x in m.group(1).split(','):
        x = x.strip()
        if not x:
            continue
        if '=' in x:
            x, n = x.split('=')
            v = int(n, 0)
        out.append((x.strip(), v))
        v += 1
    return out


ENUM = _enum()


C = 'fdb5::CatalogueWipeState::'
STATES = ('heap:fdb5::WipeState::', 'heap:fdb5::StoreWipeState::')


def storeof(x):
    x = raw(x)
    return z3.Function('spec_store_of', x.sort(), x.sort())(x)


def swt(c):
    return c.ex.world.recs['fdb5::StoreWipeState'].t


def sobj(c, r, old=False):
    return pointed(c.ex, r, swt(c), old)


def distinct(c, m):
    """no two stores share a state"""
    a, b = c.fresh('a', m.hasarr.sort().domain()), c.fresh('b', m.hasarr.sort().domain())
    al = c.ex.st.ghost.get('alloc', z3.Const('alloc0', INT))
    return z3.And(z3.ForAll([a, b], z3.Implies(And(m.has(a), m.has(b), a != b, m[a] != 0), m[a] != m[b])), z3.ForAll([a], z3.Implies(m.has(a), And(m[a] >= 0, m[a] <= al))))


def register2(R):
    R.add(Contract('fdb5::StoreFactory::uri', nargs=1, trusted='registry: the URI of the store that holds the data', value=lambda c: ('', storeof(c.args[0]))))
    R.add(Contract(S + '<ctor>', nargs=1, sig='eckit::URI', src=SRC, ctor=True, ensures=lambda c: [
        ('nothing is marked, safe or unknown', allu(c, lambda u: And(Not(c.this.safeURIs.has(u)), Not(c.this.unknownURIs.has(u)), Not(c.this.missingURIs.has(u))))), ('no type is marked', alltu(c, lambda t, u: Not(dele(c.this)(t, u)))), ('not signed', c.this.signature.sig == 0)]))

    def data(c, include):
        x = raw(c.pre[0])
        M, Q = c.this.storeWipeStates, c.old.storeWipeStates
        k = storeof(x)
        k2 = c.fresh('k', M.hasarr.sort().domain())
        new = Or(Not(Q.has(k)), Q[k] == 0)
        o, w = sobj(c, M[k]), sobj(c, Q[k], True)
        wassafe = lambda u: And(Not(new), w.safeURIs.has(u))
        wasdel = lambda t, u: And(Not(new), dele(w)(t, u))
        u, t = c.fresh('u', usort(o)), c.fresh('t', o.deleteURIs.hasarr.sort().domain())
        out = [('the store has a state', And(M.has(k), M[k] != 0)), ('a state that is there is used', z3.Implies(Not(new), M[k] == Q[k])),
               ('the other stores keep theirs', z3.ForAll([k2], z3.Implies(k2 != k, And(M.has(k2) == Q.has(k2), M[k2] == Q[k2])))), ('no two stores share a state', distinct(c, M))]
        if include:
            out += [('exactly the URI is marked, unless it is safe', z3.ForAll([t, u], dele(o)(t, u) == Or(wasdel(t, u), And(t == z3.IntVal(enum_value(c.ex, 'STORE')), u == x, Not(wassafe(x)))))), ('what is safe stays so', z3.ForAll([u], o.safeURIs.has(u) == wassafe(u)))]
        else:
            out += [('exactly the URI becomes safe', z3.ForAll([u], o.safeURIs.has(u) == Or(wassafe(u), u == x))), ('what is marked stays so', z3.ForAll([t, u], dele(o)(t, u) == wasdel(t, u)))]
        r = c.fresh('r', INT)
        p, q = sobj(c, r), sobj(c, r, True)
        out.append(('the states of the other stores are kept', z3.ForAll([r], z3.Implies(And(r != M[k], r <= c.gold.get('alloc', z3.Const('alloc0', INT))), And(*[raw(getattr(p, n)) == raw(getattr(q, n)) for n in ('safeURIs', 'deleteURIs')])))))
        return out
    for n, inc in (('includeData', True), ('excludeData', False)):
        R.add(Contract(C + n, nargs=1, src=SRC, requires=lambda c: [('no two stores share a state', distinct(c, c.this.storeWipeStates))], modifies=(('f', 'storeWipeStates_'),) + STATES, ghosts=('alloc',), throws='any', ensures=lambda c, inc=inc: data(c, inc)))
