"""Models of the standard library and of the eckit value types the verified code uses (trusted; listed in evidence)."""
import z3, re
from sorts import *
from sorts import _isctor
import execu as X
from execu import (LV, PyTup, Iter, Closure, FuncRef, Opq, ThisPtr, PtrTo, CppThrow, PathDone, And, Or, Not, Ite, is_term, select)

USED = set()


def lazy(q):
    return LAZY.get(q)


# ------------------------------------------------------------------------------------------------ strings
F_len = z3.Function('str_len', STR, INT)
F_cat = z3.Function('str_cat', STR, STR, STR)
F_rank = z3.Function('str_rank', STR, REAL)
F_chr = z3.Function('str_char', STR, INT, INT)
F_sub = z3.Function('str_substr', STR, INT, INT, STR)


def str_axioms(ex):
    def ax():
        s, t = z3.Consts('s_ax t_ax', STR)
        i = z3.Int('i_sax')
        return [z3.ForAll([s], F_len(s) >= 0, patterns=[F_len(s)]),
                z3.ForAll([s], (F_len(s) == 0) == (s == ex.lit('')), patterns=[F_len(s)]),
                z3.ForAll([s, t], F_len(F_cat(s, t)) == F_len(s) + F_len(t), patterns=[F_cat(s, t)]),
                z3.ForAll([s, t], z3.And(z3.Implies(s == ex.lit(''), F_cat(s, t) == t), z3.Implies(t == ex.lit(''), F_cat(s, t) == s)), patterns=[F_cat(s, t)]),
                ]
    ex.axiom('str', ax)


def str_rank_axioms(ex):
    def ax():
        s, t = z3.Consts('s_rx t_rx', STR)
        inv = z3.Function('str_unrank', REAL, STR)
        return [z3.ForAll([s], inv(F_rank(s)) == s, patterns=[F_rank(s)])]
    ex.axiom('strrank', ax)


def str_len(ex, s):
    str_axioms(ex)
    return F_len(s)


def str_cmp(ex, op, a, b):
    str_rank_axioms(ex)
    ra, rb = F_rank(a), F_rank(b)
    return {'<': lambda: ra < rb, '>': lambda: ra > rb, '<=': lambda: ra <= rb, '>=': lambda: ra >= rb}[op]()


def str_char(ex, s, i):
    r = F_chr(s, i)
    ex.assume(z3.And(r >= -128, r < 256))
    return r


def str_cat(ex, a, b):
    str_axioms(ex)
    if a.eq(ex.lits.get('')):
        return b
    if b.eq(ex.lits.get('')):
        return a
    return F_cat(a, b)


def tostr(ex, v):
    if v.sort() == STR:
        return v
    return z3.Function('to_string_' + mangle(v.sort().name()), v.sort(), STR)(v)


# ------------------------------------------------------------------------------------------------ sequences
def slen(t):
    return dt_of(t).get(t, 0)


def sarr(t):
    return dt_of(t).get(t, 1)


def mkseq(t, n, a):
    return dt_of(t).make(n, a)


def seq_eq(ex, a, b, ety):
    if a.eq(b):
        return z3.BoolVal(True)
    i = z3.Int('eq_i')
    la, lb = slen(a), slen(b)
    x, y = select(sarr(a), i), select(sarr(b), i)
    return And(la == lb, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < la), eq(ex, x, y, ety)), patterns=[x] if x.num_args() and not _patbad(x) else []))


def _patbad(x):
    return not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and not X.has_quant(x))


def eq(ex, a, b, ty):
    """C++ operator== of two values of the same type"""
    if a.eq(b):
        return z3.BoolVal(True)
    ty = ty.strip() if ty is not None else None
    d = dt_of(a)
    if d is None:
        return a == b
    key = d.key
    if key.startswith('Seq<'):
        return seq_eq(ex, a, b, ex.T.elem(ty) if ty is not None and (ty.args or ty.of) else None)
    if key.startswith('Set<'):
        return d.get(a, 0) == d.get(b, 0)
    if key.startswith('Map<'):
        k = z3.Const('eq_k', d.get(a, 0).sort().domain())
        va, vb = select(d.get(a, 1), k), select(d.get(b, 1), k)
        return And(d.get(a, 0) == d.get(b, 0), z3.ForAll([k], z3.Implies(select(d.get(a, 0), k), eq(ex, va, vb, ty.args[1] if ty is not None and ty.args else None))))
    if key.startswith('Tup<'):
        return And([eq(ex, d.get(a, i), d.get(b, i), ty.args[i] if ty is not None and ty.args else None) for i in range(len(d.fields))])
    if key.startswith('Opt<'):
        return And(d.get(a, 0) == d.get(b, 0), Or(Not(d.get(a, 0)), eq(ex, d.get(a, 1), d.get(b, 1), ty.args[0] if ty is not None and ty.args else None)))
    if key.startswith('Var<'):
        return And([d.get(a, 0) == d.get(b, 0)] + [z3.Implies(d.get(a, 0) == i, eq(ex, d.get(a, i + 1), d.get(b, i + 1), None)) for i in range(len(d.fields) - 1)])
    return And([eq(ex, d.get(a, i), d.get(b, i), d.ftys[i]) for i in range(len(d.fields))])


# ------------------------------------------------------------------------------------------------ iterators
def cont_kind(t):
    d = dt_of(t)
    return None if d is None else 'seq' if d.key.startswith('Seq<') else 'set' if d.key.startswith('Set<') else 'map' if d.key.startswith('Map<') else None


def begin(ex, lv, rev=False):
    t = ex.load(lv)
    k = cont_kind(t)
    if k == 'seq':
        return Iter('seq', lv, pos=z3.IntVal(0), rev=rev)
    if k in ('set', 'map'):
        has = dt_of(t).get(t, 0)
        if rev:
            raise Unsupported('reverse iteration of an associative container')
        return Iter(k, lv, pos=z3.IntVal(0), base=has, isend=ex.card(has) == 0)
    if is_term(t) and t.sort() == STR:
        return Iter('str', lv, pos=z3.IntVal(0), rev=rev)
    raise Unsupported('begin() of %s' % (t.sort() if is_term(t) else type(t).__name__))


def end(ex, lv, rev=False):
    t = ex.load(lv)
    k = cont_kind(t)
    if k == 'seq':
        return Iter('seq', lv, pos=slen(t), rev=rev)
    if k in ('set', 'map'):
        has = dt_of(t).get(t, 0)
        return Iter(k, lv, base=has, isend=z3.BoolVal(True), pos=None)
    if is_term(t) and t.sort() == STR:
        return Iter('str', lv, pos=str_len(ex, t), rev=rev)
    raise Unsupported('end()')


def iter_isend(ex, it):
    if it.isend is not None:
        return it.isend
    return it.pos == ex.card(it.base)


def iter_key(ex, it):
    if it.key is not None:
        return it.key
    return ex.order_axioms(it.base)[1](it.base, iter_pos(ex, it))


def iter_pos(ex, it):
    if it.pos is not None:
        return it.pos
    card, nth, idxof = ex.order_axioms(it.base)
    if z3.is_true(it.isend):
        return card(it.base)
    return Ite(it.isend, card(it.base), idxof(it.base, it.key))


X.Exec.iter_pos = lambda self, it: iter_pos(self, it)


def iter_deref(ex, it):
    t = ex.load(it.lv)
    if it.kind == 'seq':
        n = slen(t)
        i = it.pos if not it.rev else n - 1 - it.pos
        ex.safe('iterator dereferenced inside its container', z3.And(i >= 0, i < n))
        ty = it.lv.ty
        et = ex.T.elem(ty.strip()) if ty is not None and (ty.strip().args or ty.strip().of) else None
        return it.lv.ext(('i', i), et)
    if it.kind == 'str':
        return str_char(ex, t, it.pos)
    d = dt_of(t)
    k = iter_key(ex, it)
    ex.safe('iterator dereferenced inside its container', And(Not(iter_isend(ex, it)), select(d.get(t, 0), k)))
    if it.kind == 'set':
        return k
    ty = it.lv.ty.strip() if it.lv.ty is not None else None
    vt = ty.args[1] if ty is not None and len(ty.args) > 1 else None
    return PyTup([k, it.lv.ext(('mv', k), vt)], [ty.args[0], vt] if vt is not None else None)


def iter_add(ex, it, n):
    if isinstance(n, int):
        n = z3.IntVal(n)
    p = z3.simplify(iter_pos(ex, it) + n)
    return Iter(it.kind, it.lv, pos=p, base=it.base, rev=it.rev)


def iter_eq(ex, a, b):
    if a.kind in ('seq', 'str'):
        if a.rev != b.rev:
            raise Unsupported('comparing forward and reverse iterators')
        return a.pos == b.pos
    ea, eb = iter_isend(ex, a), iter_isend(ex, b)
    if z3.is_true(eb):
        return ea
    if z3.is_true(ea):
        return eb
    return Or(And(ea, eb), And(Not(ea), Not(eb), iter_key(ex, a) == iter_key(ex, b)))


def iter_cmp(ex, op, a, b):
    x, y = iter_pos(ex, a), iter_pos(ex, b)
    return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]


def iter_arith(ex, op, a, b):
    if isinstance(a, Iter) and isinstance(b, Iter):
        if op != '-':
            raise Unsupported('iterator ' + op)
        return z3.simplify(iter_pos(ex, a) - iter_pos(ex, b))
    if isinstance(b, Iter):
        a, b = b, a
    return iter_add(ex, a, b if op == '+' else -b)


def as_idx(ex, it):
    """(container term, index) of a sequence iterator"""
    if not isinstance(it, Iter) or it.kind != 'seq':
        raise Unsupported('sequence iterator expected')
    return ex.load(it.lv), it.pos


# ------------------------------------------------------------------------------------------------ streams
OSTREAMS = ('std::ostream', 'std::basic_ostream')


def is_ostream_ty(t):
    t = t.strip()
    return t.k == 'rec' and (t.s == 'std::ostream' or t.tname in ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_iostream', 'std::basic_ofstream', 'std::basic_fstream') or t.s in ('eckit::Channel', 'eckit::JSON', 'std::ofstream'))


def plain_access(e):
    """names, members and dereferences only, with a dereference of an iterator or pointer among them"""
    deref = [False]

    def ok(x):
        k = x.get('k')
        if k in ('Cast', 'Paren', 'Temp', 'Mat', 'ICast', 'Clean', 'Bind'):
            return ok(x['e'])
        if k == 'Ref':
            return True
        if k == 'Member':
            return 'f' not in x and ok(x['base'])
        if k == 'OpCall' and x.get('op') in ('->', '*') and len(x['args']) == 1:
            deref[0] = True
            return ok(x['args'][0])
        return False
    return ok(e) and deref[0]


def stream_op(ex, e, f, op):
    """operator<< / >>: text output is not tracked except into string streams; eckit::Stream goes to the codec model"""
    import codec
    r = codec.stream_op(ex, e, f, op)
    if r is not NotImplemented:
        return r
    if op == '<<':
        a0t = None
        if f.cls is not None and not f.static:
            nm = f.cls.split('<')[0]
            if nm in ('std::basic_ostream', 'std::ostream', 'eckit::Channel', 'eckit::JSON'):
                a0t = True
        elif f.pt and is_ostream_ty(f.pt[0]):
            a0t = True
        if a0t:
            s = ex.ev(e['args'][0])
            v = ex.rv(s)
            if is_term(v) and v.sort() == STR and isinstance(s, LV):
                try:
                    x = ex.ev(e['args'][1])
                    x = ex.rv(x)
                    if isinstance(x, (FuncRef, Opq)):
                        return s
                    x = ex.term(x)
                    ex.store(LV(s.root, s.path, None), str_cat(ex, v, tostr(ex, x)))
                except Unsupported:
                    ex.store(LV(s.root, s.path, None), ex.fresh('text', STR))
            elif isinstance(v, Opq) and plain_access(e['args'][1]):
                # the text is not tracked, but what is read for it must be there
                try:
                    ex.ev(e['args'][1])
                except Unsupported:
                    pass
            return s
    if op == '>>' and f.cls is not None and f.cls.split('<')[0] in ('std::basic_istream',):
        raise Unsupported('text input')
    return NotImplemented


# ------------------------------------------------------------------------------------------------ constructors
def ctor(ex, f, ty, k, args, e):
    n = len(args)
    if k == 'str':
        if n == 0:
            return ex.lit('')
        v = ex.rv(args[0])
        if is_term(v) and v.sort() == STR:
            if n == 1 or (n == 2 and not _isint(ex, args[1])) or ty.tname in STREAMSTR:
                return v
            if n == 2:
                return F_sub(v, z3.IntVal(0), ex.rv(args[1])) if f.pt and f.pt[0].k == 'ptr' else F_sub(v, ex.rv(args[1]), z3.IntVal(U64 - 1))
            if n == 3 and _isint(ex, args[1]) and _isint(ex, args[2]):
                return F_sub(v, ex.rv(args[1]), ex.rv(args[2]))
            return v
        if is_term(v) and v.sort() == INT:
            if ty.tname in STREAMSTR:
                return ex.lit('')
            vals = [ex.rv(a) for a in args]
            vals = [x for x in vals if is_term(x) and x.sort() == INT]
            return z3.Function('str_fill%d' % len(vals), *([INT] * len(vals) + [STR]))(*vals)
        if isinstance(v, Iter):
            return ex.fresh('str', STR)
        if isinstance(v, Opq) and ty.tname in STREAMSTR:
            return ex.lit('')
        raise Unsupported('string constructor')
    if k == 'seq':
        et = ex.T.elem(ty)
        d = dt_of(ex.T.sort(ty))
        if n == 0 or (n == 1 and isinstance(ex.rv(args[0]), Opq)):
            return ex.default(ty)
        v = ex.rv(args[0])
        if is_term(v) and v.sort() == d.sort:
            return v
        if is_term(v) and v.sort() == INT:
            if n >= 2 and not isinstance(ex.rv(args[1]), Opq) and is_term(ex.rv(args[1])) and ex.rv(args[1]).sort() == ex.T.sort(et):
                return d.make(v, z3.K(INT, ex.rv(args[1])))
            return d.make(v, z3.K(INT, ex.default(et)))
        if isinstance(v, Iter):
            r = range_to_seq(ex, v, ex.rv(args[1]), et)
            if r.sort() != d.sort:
                so, to = dt_of(r).get(r, 1).sort().range(), d.get(ex.fresh('any', d.sort), 1).sort().range()
                if so != STR or ex.T.kind(et) != 'opaque' or et.s != 'eckit::PathName':
                    raise Unsupported('sequence of converted elements')
                # each element converted by PathName(const std::string&)
                c = ex.fresh('conv', d.sort)
                i = z3.Int('rs_i')
                ex.assume(d.get(c, 0) == slen(r))
                ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < slen(r)), select(d.get(c, 1), i) == z3.Function('spec_PathName', STR, to)(select(sarr(r), i))), patterns=[select(d.get(c, 1), i), select(sarr(r), i)]))
                return c
            return r
        raise Unsupported('sequence constructor from %s' % (v.sort() if is_term(v) else type(v).__name__))
    if k in ('set', 'map'):
        d = dt_of(ex.T.sort(ty))
        if n == 0:
            return ex.default(ty)
        v = ex.rv(args[0])
        if is_term(v) and v.sort() == d.sort:
            return v
        if is_term(v) and cont_kind(v) == 'seq':
            return seq_to_assoc(ex, ty, v)
        if k == 'set' and ty.tname == 'eckit::DenseSet' and is_term(v) and v.sort() == INT:
            return ex.default(ty)
        if isinstance(v, Iter):
            s = ex.load(v.lv)
            if v.kind == 'seq':
                return seq_to_assoc(ex, ty, range_to_seq(ex, v, ex.rv(args[1]), None))
            if v.kind == 'set' and k == 'set':
                return s
            if v.kind == 'map' and k == 'map':
                return s
        raise Unsupported('associative container constructor')
    if k == 'tup':
        if n == 0:
            return ex.default(ty)
        if n == 1 and len(ty.args) != 1:
            v = ex.rv(args[0])
            if isinstance(v, PyTup):
                return PyTup([ex.rv(i) for i in v.items], ty.args)
            if is_term(v) and v.sort() == ex.T.sort(ty):
                return v
            if is_term(v) and dt_of(v) is not None and dt_of(v).key.startswith('Tup<'):
                return PyTup([dt_of(v).get(v, i) for i in range(len(ty.args))], ty.args)
        if n == len(ty.args):
            its = []
            for a, t in zip(args, ty.args):
                if t.k == 'ref' and isinstance(a, LV):
                    its.append(a)
                else:
                    v = ex.rv(a)
                    its.append(ex.fit(ex.coerce(v, t), t) if is_term(v) else v)
            r = PyTup(its, ty.args)
            return ex.coerce(r, ty)
        if n == 3 and isinstance(ex.rv(args[0]), Opq):    # piecewise_construct
            its = []
            for a, t in zip(args[1:], ty.args):
                v = ex.rv(a)
                if not isinstance(v, PyTup):
                    raise Unsupported('piecewise construction')
                its.append(ex.default(t) if len(v.items) == 0 else ex.term(v.items[0], t))
            return PyTup(its, ty.args)
        raise Unsupported('tuple constructor')
    if k == 'opt':
        s = ex.T.sort(ty.args[0])
        d = opt_dt(s)
        if n == 0:
            return ex.default(ty)
        v = ex.rv(args[0])
        if isinstance(v, Opq):
            return ex.default(ty)
        if is_term(v) and v.sort() == d.sort:
            return v
        at = ty.args[0].strip()
        if ex.T.kind(at) == 'var' and is_term(v) and v.sort() != s:
            v = ctor(ex, _FakeF(), at, 'var', [v], e)
        return d.make(z3.BoolVal(True), ex.fit(ex.term(v, ty.args[0]), ty.args[0]))
    if k == 'var':
        ss = [ex.T.sort(a) for a in ty.args]
        d = var_dt(ss)
        if n == 0:
            return ex.default(ty)
        v = ex.rv(args[0])
        if is_term(v) and v.sort() == d.sort:
            return v
        at = f.pt[0].strip() if f.pt else None
        for i, a in enumerate(ty.args):
            if at is not None and a.s == at.s:
                t = ex.term(v, a)
                return d.make(z3.IntVal(i), *[t if j == i else ex.dflt_sort(s) for j, s in enumerate(ss)])
        t = ex.term(v)
        c = [i for i, s in enumerate(ss) if s == t.sort()]
        if len(c) == 1:
            return d.make(z3.IntVal(c[0]), *[t if j == c[0] else ex.dflt_sort(s) for j, s in enumerate(ss)])
        raise Unsupported('variant constructor')
    if k == 'ptr':
        if n == 0:
            return z3.IntVal(0)
        v = ex.rv(args[0])
        if isinstance(v, (ThisPtr, PtrTo)):
            return v
        if isinstance(v, Opq):
            return z3.IntVal(0)
        return v
    if k == 'int':
        if n == 0:
            return z3.IntVal(0)
        return ex.rv(args[0])
    if k in ('bool', 'float'):
        return ex.rv(args[0]) if n else ex.default(ty)
    if k == 'opaque':
        nm = ty.tname
        if nm in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'eckit::AutoLock', 'eckit::Mutex', 'std::mutex', 'std::recursive_mutex',
                  'eckit::CodeLocation', 'eckit::Timer', 'eckit::log::Timer') or ty.lam or nm.startswith('std::allocator') or nm.startswith('std::nullopt') or nm == 'std::piecewise_construct_t':
            return Opq(nm)
        if nm == 'std::function':
            v = ex.rv(args[0]) if args else Opq('function')
            return v
        if f.cls and ('__normal_iterator' in f.cls or 'iterator' in f.cls.lower()) and n == 1 and isinstance(ex.rv(args[0]), Iter):
            return ex.rv(args[0])
        if n == 1 and isinstance(ex.rv(args[0]), Iter):
            return ex.rv(args[0])
        if n == 1 and isinstance(ex.rv(args[0]), Closure):
            return ex.rv(args[0])
    return NotImplemented


def _isint(ex, a):
    v = ex.rv(a)
    return is_term(v) and v.sort() == INT


def range_to_seq(ex, b, e, et):
    if b.kind == 'seq':
        s = ex.load(b.lv)
        n = z3.simplify(e.pos - b.pos)
        if b.rev:
            r = ex.fresh('rev', s.sort())
            i = z3.Int('rs_i')
            L = slen(s)
            ex.assume(slen(r) == n)
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), select(sarr(r), i) == select(sarr(s), L - 1 - (b.pos + i))), patterns=[select(sarr(r), i)]))
            return r
        if z3.is_int_value(b.pos) and b.pos.as_long() == 0:
            return mkseq(s, n, sarr(s))
        r = ex.fresh('sub', s.sort())
        i = z3.Int('rs_i')
        ex.assume(slen(r) == n)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), select(sarr(r), i) == select(sarr(s), b.pos + i)), patterns=[select(sarr(r), i)]))
        return r
    if b.kind == 'set' and z3.is_true(iter_isend(ex, e)) and b.pos is not None and z3.is_int_value(b.pos):
        card, nth, idxof = ex.order_axioms(b.base)
        d = seq_dt(b.base.sort().domain())
        r = ex.fresh('elems', d.sort)
        i = z3.Int('rs_i')
        ex.assume(d.get(r, 0) == card(b.base))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < card(b.base)), select(d.get(r, 1), i) == nth(b.base, i)), patterns=[select(d.get(r, 1), i), nth(b.base, i)]))
        return r
    raise Unsupported('range construction')


def seq_to_assoc(ex, ty, s):
    k = ex.T.kind(ty)
    d = dt_of(ex.T.sort(ty))
    r = ex.default(ty)
    n = slen(s)
    if z3.is_int_value(n) and n.as_long() <= 64:
        lv = ex.newroot(r, ty, 'assoc')
        for i in range(n.as_long()):
            el = select(sarr(s), z3.IntVal(i))
            if k == 'set':
                assoc_insert(ex, lv, el)
            else:
                dd = dt_of(el)
                assoc_insert(ex, lv, dd.get(el, 0), dd.get(el, 1))
        return ex.load(lv)
    if k == 'set':
        r = ex.fresh('asset', d.sort)
        x = z3.Const('as_x', d.fsorts[0].domain())
        i = z3.Int('as_i')
        has = d.get(r, 0)
        w = z3.Function('set_wit_%d' % r.get_id(), x.sort(), INT)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(has, select(sarr(s), i))), patterns=[select(sarr(s), i)]))
        ex.assume(z3.ForAll([x], z3.Implies(z3.Select(has, x), z3.And(w(x) >= 0, w(x) < n, select(sarr(s), w(x)) == x)), patterns=[z3.Select(has, x)]))
        return r
    raise Unsupported('map from a sequence of unknown length')


# ------------------------------------------------------------------------------------------------ associative containers
def assoc_insert(ex, lv, key, val=None, overwrite=False, dflt=None):
    """insert key (-> val); returns 'was absent'"""
    t = ex.load(lv)
    d = dt_of(t)
    has = d.get(t, 0)
    was = select(has, key)
    card, _, _ = ex.order_axioms(has)
    nhas = z3.Store(has, key, z3.BoolVal(True))
    ex.assume(card(nhas) == Ite(was, card(has), card(has) + 1))
    if len(d.fields) == 1:
        nt = d.make(nhas)
    else:
        v = d.get(t, 1)
        nv = z3.Store(v, key, val if overwrite else Ite(was, z3.Select(v, key), val))
        nt = d.make(nhas, nv)
    ex.store(LV(lv.root, lv.path, None), nt)
    return Not(was)


def assoc_erase(ex, lv, key):
    t = ex.load(lv)
    d = dt_of(t)
    has = d.get(t, 0)
    was = select(has, key)
    card, _, _ = ex.order_axioms(has)
    nhas = z3.Store(has, key, z3.BoolVal(False))
    ex.assume(card(nhas) == Ite(was, card(has) - 1, card(has)))
    nt = d.make(nhas) if len(d.fields) == 1 else d.make(nhas, d.get(t, 1))
    ex.store(LV(lv.root, lv.path, None), nt)
    return Ite(was, z3.IntVal(1), z3.IntVal(0))


def lvty(ex, lv):
    return lv.ty.strip() if isinstance(lv, LV) and lv.ty is not None else None


def assoc_method(ex, f, m, lv, args, cls_ty):
    t = ex.load(lv)
    d = dt_of(t)
    ismap = len(d.fields) == 2
    kind = 'map' if ismap else 'set'
    ks = d.fsorts[0].domain()
    ty = cls_ty
    has = d.get(t, 0)

    def keyterm(a):
        v = ex.rv(a)
        if isinstance(v, PyTup):
            v = ex.term(v, ty.args[0] if ty is not None else None)
        if is_term(v) and v.sort() != ks and ty is not None:
            v = ex.fit(v, ty.args[0])
        return v
    if m in ('size',):
        return ex.card(has)
    if m == 'empty':
        ex.order_axioms(has)
        k = z3.Const('em_k', ks)
        r = ex.card(has) == 0
        ex.assume(z3.Implies(r, has == z3.K(ks, z3.BoolVal(False))))
        return r
    if m in ('begin', 'cbegin'):
        return begin(ex, lv)
    if m in ('end', 'cend'):
        return end(ex, lv)
    if m in ('find', 'lower_bound_') and len(args) == 1:
        k = keyterm(args[0])
        return Iter(kind, lv, key=k, isend=Not(select(has, k)), base=has)
    if m == 'count':
        return Ite(select(has, keyterm(args[0])), z3.IntVal(1), z3.IntVal(0))
    if m == 'contains':
        return select(has, keyterm(args[0]))
    if m == 'at':
        k = keyterm(args[0])
        if not ex.choose(select(has, k)):
            raise CppThrow('std::out_of_range')
        return lv.ext(('mv', k), ty.args[1] if ty is not None else None)
    if m == 'operator[]':
        k = keyterm(args[0])
        vt = ty.args[1]
        # default insertion
        assoc_insert(ex, lv, k, ex.default(vt))
        return lv.ext(('mv', k), vt)
    if m in ('insert', 'emplace', 'try_emplace', 'emplace_hint', 'insert_or_assign'):
        if m == 'emplace_hint':
            args = args[1:]
        if m == 'insert' and len(args) == 2 and isinstance(ex.rv(args[0]), Iter) and isinstance(ex.rv(args[1]), Iter):
            return assoc_insert_range(ex, lv, ex.rv(args[0]), ex.rv(args[1]), ismap)
        if m == 'insert' and len(args) == 2:      # hint
            args = args[1:]
        if ismap:
            if len(args) == 1:
                v = ex.rv(args[0])
                if isinstance(v, PyTup):
                    k, val = ex.rv(v.items[0]), v.items[1]
                else:
                    dd = dt_of(v)
                    if dd is None or not dd.key.startswith('Tup<'):
                        raise Unsupported('map insert of %s' % v.sort())
                    k, val = dd.get(v, 0), dd.get(v, 1)
                val = construct_as(ex, ty.args[1], [val])
            else:
                if is_opq(ex, args[0]):   # piecewise
                    kt, vt_ = ex.rv(args[1]), ex.rv(args[2])
                    k = ex.term(kt.items[0], ty.args[0])
                    val = construct_as(ex, ty.args[1], vt_.items)
                else:
                    k = ex.rv(args[0])
                    val = construct_as(ex, ty.args[1], args[1:])
            k = keyterm(k)
            absent = assoc_insert(ex, lv, k, val, overwrite=(m == 'insert_or_assign'))
        else:
            k = construct_as(ex, ty.args[0], args) if ty is not None else ex.rv(args[0])
            k = keyterm(k)
            absent = assoc_insert(ex, lv, k)
        nh = dt_of(ex.load(lv)).get(ex.load(lv), 0)
        it = Iter(kind, lv, key=k, isend=z3.BoolVal(False), base=nh)
        if m == 'emplace_hint':
            return it
        return PyTup([it, absent])
    if m == 'erase':
        v = ex.rv(args[0])
        if isinstance(v, Iter):
            if len(args) == 2:
                raise Unsupported('range erase')
            k = iter_key(ex, v)
            p = iter_pos(ex, v) if v.pos is not None else None
            assoc_erase(ex, lv, k)
            if p is None:
                return Iter(kind, lv, pos=ex.fresh('after_erase', INT), base=v.base)
            return Iter(kind, lv, pos=z3.simplify(p + 1), base=v.base)
        return assoc_erase(ex, lv, keyterm(args[0]))
    if m == 'clear':
        ex.store(LV(lv.root, lv.path, None), d.make(z3.K(ks, z3.BoolVal(False)), *([d.get(t, 1)] if ismap else [])))
        return z3.Const('unit', UNIT)
    if m == 'swap':
        o = args[0]
        a, b = ex.load(lv), ex.rv(o)
        ex.store(LV(lv.root, lv.path, None), b)
        ex.store(LV(o.root, o.path, None), a)
        return z3.Const('unit', UNIT)
    if m == 'operator=':
        v = ex.rv(args[0])
        if is_term(v) and cont_kind(v) == 'seq':
            v = seq_to_assoc(ex, ty, v)
        ex.store(lv, v)
        return lv
    if m == 'reserve':
        return z3.Const('unit', UNIT)
    if m in ('operator==', 'operator!=') and len(args) == 1:
        r = eq(ex, t, ex.rv(args[0]), ty)
        return r if m == 'operator==' else Not(r)
    if m == 'sort' or m == 'sorted':       # DenseSet: order is not part of the value
        ex.assume_note('eckit::DenseSet: looked up only when sorted (a run-time assertion there), modelled as a mathematical set')
        return z3.Const('unit', UNIT) if m == 'sort' else z3.BoolVal(True)
    if m == 'merge' and isinstance(args[0], LV):
        o = ex.rv(args[0])
        if ismap or not is_term(o):
            raise Unsupported('merge')
        k = z3.Const('mg_k', ks)
        ex.store(LV(lv.root, lv.path, None), d.make(z3.Lambda([k], z3.Or(select(has, k), select(dt_of(o).get(o, 0), k)))))
        return z3.Const('unit', UNIT)
    return NotImplemented


def assoc_insert_range(ex, lv, b, e, ismap):
    t = ex.load(lv)
    d = dt_of(t)
    has = d.get(t, 0)
    ks = d.fsorts[0].domain()
    if b.kind in ('set', 'map') and b.pos is not None and z3.is_int_value(b.pos) and z3.is_true(iter_isend(ex, e)):
        k = z3.Const('ir_k', ks)
        src = ex.load(b.lv)
        nh = z3.SetUnion(has, b.base) if False else z3.Lambda([k], z3.Or(z3.Select(has, k), z3.Select(b.base, k)))
        nh2 = ex.fresh('union', has.sort())
        ex.order_axioms(has)
        ex.assume(z3.ForAll([k], z3.Select(nh2, k) == z3.Or(z3.Select(has, k), z3.Select(b.base, k)), patterns=[z3.Select(nh2, k)]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.Or(z3.Select(has, k), z3.Select(b.base, k)), z3.Select(nh2, k)), patterns=[z3.Select(has, k)]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.Select(b.base, k), z3.Select(nh2, k)), patterns=[z3.Select(b.base, k)]))
        if ismap:
            v = d.get(t, 1)
            sv = dt_of(src).get(src, 1)
            nv = ex.fresh('unionval', v.sort())
            ex.assume(z3.ForAll([k], z3.Select(nv, k) == z3.If(z3.Select(has, k), z3.Select(v, k), z3.Select(sv, k)), patterns=[z3.Select(nv, k)]))
            ex.store(LV(lv.root, lv.path, None), d.make(nh2, nv))
        else:
            ex.store(LV(lv.root, lv.path, None), d.make(nh2))
        return z3.Const('unit', UNIT)
    if b.kind == 'seq' and not ismap:
        s = ex.load(b.lv)
        nh2 = ex.fresh('union', has.sort())
        k = z3.Const('ir_k', ks)
        i = z3.Int('ir_i')
        w = z3.Function('ir_wit_%s' % nh2.decl().name(), ks, INT)
        ex.order_axioms(has)
        ex.assume(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.Select(nh2, k)), patterns=[z3.Select(has, k)]))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= b.pos, i < e.pos), z3.Select(nh2, select(sarr(s), i))), patterns=[select(sarr(s), i)]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.Select(nh2, k), z3.Or(z3.Select(has, k), z3.And(w(k) >= b.pos, w(k) < e.pos, select(sarr(s), w(k)) == k))), patterns=[z3.Select(nh2, k)]))
        ex.store(LV(lv.root, lv.path, None), d.make(nh2))
        return z3.Const('unit', UNIT)
    raise Unsupported('range insert')


def is_opq(ex, a):
    return isinstance(ex.rv(a), Opq)


OPAQUE_CTORS = {}       # external types whose construction contracts describe (emplace)


def construct_as(ex, ty, args):
    """value of type ty built from constructor arguments (emplace)"""
    ty0 = ty.strip()
    k = ex.T.kind(ty0)
    if len(args) == 1:
        v = ex.rv(args[0])
        if is_term(v):
            if v.sort() == ex.T.sort(ty0):
                return v
            if k in ('int', 'bool', 'float'):
                return ex.fit(v, ty0)
            if k == 'rec' and dt_of(v) is not None and dt_of(v).key.startswith('R<'):
                try:
                    return ex.slice(v, ty0)
                except Unsupported:
                    pass
        if isinstance(v, PyTup) and k == 'tup':
            return ex.term(v, ty0)
        if isinstance(v, (ThisPtr,)):
            raise Unsupported('storing this')
    if len(args) == 0:
        if k == 'rec':
            fn = find_ctor(ex, ty0, [])
            if fn is not None:
                return ex.inline_ctor(fn, ty0, [])
        return ex.default(ty0)
    if k == 'tup' and len(args) == len(ty0.args):
        return ex.term(PyTup([construct_as(ex, t, [a]) for t, a in zip(ty0.args, args)], ty0.args), ty0)
    if k == 'tup' and len(args) == 3 and is_opq(ex, args[0]):
        return ex.term(PyTup([construct_as(ex, t, ex.rv(a).items) for t, a in zip(ty0.args, args[1:])], ty0.args), ty0)
    if k in ('seq', 'str', 'opt', 'var', 'set', 'map', 'ptr'):
        f = _FakeF()
        f.pt = [_tyof(ex, a) for a in args]
        f.pt = [x for x in f.pt if x is not None]
        r = ctor(ex, f, ty0, k, args, {})
        if r is not NotImplemented:
            return ex.term(r, ty0)
    if k == 'rec':
        fn = find_ctor(ex, ty0, args)
        if fn is not None:
            c = ex.contracts.match(fn.f)
            if c is not None:
                return ex.apply_contract(c, fn.f, None, args, ctor_ty=ty0)
            return ex.inline_ctor(fn, ty0, args)
    if k == 'opaque':
        h = OPAQUE_CTORS.get(ty0.s)
        r = h(ex, [ex.rv(a) for a in args]) if h is not None and (ty0.s + '::<ctor>') in ex.contracts.byq else None
        if r is not None:
            return r
        ex.assume_note('external constructor (uninterpreted): ' + ty0.s)
        return ex.uf('ctor_' + ty0.s, [a for a in args if not is_opq(ex, a)], ty0)
    raise Unsupported('emplace of ' + ty0.s)


class _FakeF:
    pt = []
    cls = None


def _tyof(ex, a):
    return a.ty if isinstance(a, LV) else None


def find_ctor(ex, ty, args):
    q = ty.s + '::<ctor>'
    cands = [fn for fn in ex.world.byq.get(q, []) if len(fn.params) == len(args)]
    if not cands:
        for fid, src in ex.world.index().items():
            if fid.startswith(q + '('):
                fn = ex.world.func(fid)
                if fn is not None and len(fn.params) == len(args):
                    cands.append(fn)
    ok = []
    for fn in cands:
        good = True
        for pt, a in zip(fn.f.pt, args):
            v = ex.rv(a)
            try:
                s = ex.T.sort(pt.strip())
            except Unsupported:
                good = False
                break
            if is_term(v):
                if v.sort() != s and not ({v.sort().name(), s.name()} <= {'Int', 'Real', 'Bool'}):
                    d, sd = dt_of(v), dt_of(s)
                    if not (d is not None and sd is not None and d.key.startswith('R<') and sd.key.startswith('R<') and all(l in d.idx for l in sd.fields)):
                        good = False
            elif isinstance(v, Iter):
                good = False
        if good:
            ok.append(fn)
    if len(ok) > 1:
        nc = [f for f in ok if f.f.get('ctor') not in ('copy', 'move')]
        ok = nc or ok
    return ok[0] if ok else None


# ------------------------------------------------------------------------------------------------ sequences: methods
def seq_push(ex, lv, val):
    t = ex.load(lv)
    n = slen(t)
    ex.store(LV(lv.root, lv.path, None), mkseq(t, z3.simplify(n + 1), z3.Store(sarr(t), n, val)))


def seq_method(ex, f, m, lv, args, ty):
    t = ex.load(lv)
    n, a = slen(t), sarr(t)
    et = ex.T.elem(ty) if ty is not None else None
    U = z3.Const('unit', UNIT)
    if m in ('size', 'length'):
        return n
    if m == 'empty':
        return n == 0
    if m in ('operator[]', 'at'):
        i = ex.rv(args[0])
        if m == 'at':
            if not ex.choose(z3.And(i >= 0, i < n)):
                raise CppThrow('std::out_of_range')
        else:
            ex.safe('index within the container', z3.And(i >= 0, i < n))
        return lv.ext(('i', i), et)
    if m in ('front', 'top', 'back'):
        ex.safe('%s() of a non-empty container' % m, n > 0)
        if ty is not None and ty.tname == 'std::queue' or m == 'front':
            i = z3.IntVal(0)
        else:
            i = z3.simplify(n - 1)
        return lv.ext(('i', i), et)
    if m in ('push_back', 'emplace_back', 'push', 'emplace') and (m != 'emplace' or ty.tname in ('std::queue', 'std::stack')):
        seq_push(ex, lv, construct_as(ex, et, args))
        return lv.ext(('i', n), et)
    if m == 'push_front' or m == 'emplace_front':
        v = construct_as(ex, et, args)
        r = ex.fresh('pushf', t.sort())
        i = z3.Int('pf_i')
        ex.assume(slen(r) == n + 1)
        ex.assume(select(sarr(r), z3.IntVal(0)) == v)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), select(sarr(r), i + 1) == select(a, i)), patterns=[select(a, i)]))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < n + 1), select(sarr(r), i) == select(a, i - 1)), patterns=[select(sarr(r), i)]))
        ex.store(LV(lv.root, lv.path, None), r)
        return lv.ext(('i', z3.IntVal(0)), et)
    if m in ('pop_back',) or (m == 'pop' and ty.tname == 'std::stack'):
        ex.safe('pop of a non-empty container', n > 0)
        ex.store(LV(lv.root, lv.path, None), mkseq(t, z3.simplify(n - 1), a))
        return U
    if m == 'pop_front' or m == 'pop':
        ex.safe('pop of a non-empty container', n > 0)
        seq_erase(ex, lv, z3.IntVal(0), z3.IntVal(1))
        return U
    if m in ('begin', 'cbegin'):
        return begin(ex, lv)
    if m in ('end', 'cend'):
        return end(ex, lv)
    if m in ('rbegin', 'crbegin'):
        return begin(ex, lv, True)
    if m in ('rend', 'crend'):
        return end(ex, lv, True)
    if m in ('reserve', 'shrink_to_fit'):
        return U
    if m == 'clear':
        ex.store(LV(lv.root, lv.path, None), mkseq(t, z3.IntVal(0), a))
        return U
    if m == 'resize':
        k = ex.rv(args[0])
        v = ex.rv(args[1]) if len(args) > 1 else ex.default(et)
        na = ex.fresh('resized', a.sort())
        i = z3.Int('rz_i')
        ex.assume(z3.ForAll([i], select(na, i) == z3.If(z3.And(i >= n, i < k), v, select(a, i)), patterns=[select(na, i)]))
        ex.store(LV(lv.root, lv.path, None), mkseq(t, k, na))
        return U
    if m == 'fill':
        v = ex.rv(args[0])
        ex.store(LV(lv.root, lv.path, None), mkseq(t, n, z3.K(INT, v)))
        return U
    if m == 'operator=':
        v = ex.rv(args[0])
        ex.store(LV(lv.root, lv.path, None), v if is_term(v) else ex.term(v))
        return lv
    if m == 'assign':
        v = ex.rv(args[0])
        if isinstance(v, Iter):
            ex.store(LV(lv.root, lv.path, None), range_to_seq(ex, v, ex.rv(args[1]), et))
            return U
        if len(args) == 2:
            ex.store(LV(lv.root, lv.path, None), mkseq(t, v, z3.K(INT, ex.rv(args[1]))))
            return U
        if len(args) == 1:
            ex.store(LV(lv.root, lv.path, None), v)
            return U
    if m == 'swap':
        o = args[0]
        b = ex.rv(o)
        ex.store(LV(lv.root, lv.path, None), b)
        ex.store(LV(o.root, o.path, None), t)
        return U
    if m == 'insert' and len(args) == 3 and isinstance(ex.rv(args[0]), Iter):
        p = ex.rv(args[0]).pos
        sub = range_to_seq(ex, ex.rv(args[1]), ex.rv(args[2]), et)
        k = slen(sub)
        r = ex.fresh('ins', t.sort())
        i = z3.Int('in_i')
        ex.assume(slen(r) == n + k)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n + k), select(sarr(r), i) == z3.If(i < p, select(a, i), z3.If(i < p + k, select(sarr(sub), i - p), select(a, i - k)))), patterns=[select(sarr(r), i)]))
        ex.store(LV(lv.root, lv.path, None), r)
        return Iter('seq', lv, pos=p)
    if m in ('insert', 'emplace') and len(args) == 2 and isinstance(ex.rv(args[0]), Iter):
        p = ex.rv(args[0]).pos
        v = construct_as(ex, et, args[1:])
        r = ex.fresh('ins', t.sort())
        i = z3.Int('in_i')
        ex.assume(slen(r) == n + 1)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n + 1), select(sarr(r), i) == z3.If(i < p, select(a, i), z3.If(i == p, v, select(a, i - 1)))), patterns=[select(sarr(r), i)]))
        ex.store(LV(lv.root, lv.path, None), r)
        return Iter('seq', lv, pos=p)
    if m == 'erase':
        x = ex.rv(args[0])
        if isinstance(x, Iter):
            e = ex.rv(args[1]).pos if len(args) == 2 else x.pos + 1
            ex.safe('erase inside the container', z3.And(x.pos >= 0, x.pos <= e, e <= n))
            seq_erase(ex, lv, x.pos, e)
            return Iter('seq', lv, pos=x.pos)
    if m == 'data':
        return PtrTo(lv)
    if m == 'operator==':
        return eq(ex, t, ex.rv(args[0]), ty)
    return NotImplemented


def seq_erase(ex, lv, b, e):
    t = ex.load(lv)
    n, a = slen(t), sarr(t)
    w = z3.simplify(e - b)
    r = ex.fresh('erased', t.sort())
    i = z3.Int('er_i')
    ex.assume(slen(r) == n - w)
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n - w), select(sarr(r), i) == z3.If(i < b, select(a, i), select(a, i + w))), patterns=[select(sarr(r), i)]))
    ex.store(LV(lv.root, lv.path, None), r)


# ------------------------------------------------------------------------------------------------ strings: methods
def str_method(ex, f, m, lv, args, ty):
    s = ex.rv(lv)
    str_axioms(ex)
    U = z3.Const('unit', UNIT)
    A = [ex.rv(a) for a in args]
    if m in ('size', 'length'):
        return F_len(s)
    if m == 'empty':
        return s == ex.lit('')
    if m in ('c_str', 'data', 'str', 'operator basic_string_view', '<conv>', 'substr') and not A:
        return s
    if m == 'str' and len(A) == 1:
        ex.store(LV(lv.root, lv.path, None), A[0])
        return U
    if m == 'substr':
        return F_sub(s, A[0], A[1] if len(A) > 1 else z3.IntVal(U64 - 1))
    if m == 'compare':
        if len(A) == 1:
            str_rank_axioms(ex)
            return Ite(s == A[0], z3.IntVal(0), Ite(F_rank(s) < F_rank(A[0]), z3.IntVal(-1), z3.IntVal(1)))
        return ex.uf('str_compare', [s] + A, f.rt)
    if m in ('operator[]', 'at'):
        return str_char(ex, s, A[0])
    if m == 'front':
        return str_char(ex, s, z3.IntVal(0))
    if m == 'back':
        return str_char(ex, s, F_len(s) - 1)
    if m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        A = [a for a in A]
        r = z3.Function('str_%s_%d%s' % (m, len(A), ''.join('s' if a.sort() == STR else 'i' for a in A)), *([STR] + [a.sort() for a in A] + [INT]))(s, *A)
        ex.assume(Or(r == U64 - 1, z3.And(r >= 0, r < F_len(s))))
        return r
    if m in ('append', 'operator+='):
        v = A[0]
        if v.sort() == INT:
            v = z3.Function('str_fill1', INT, STR)(v)
        ex.store(LV(lv.root, lv.path, None), str_cat(ex, s, v))
        return lv
    if m == 'push_back':
        ex.store(LV(lv.root, lv.path, None), str_cat(ex, s, z3.Function('str_fill1', INT, STR)(A[0])))
        return U
    if m in ('operator=', 'assign'):
        v = A[0]
        ex.store(LV(lv.root, lv.path, None), v if v.sort() == STR else z3.Function('str_fill1', INT, STR)(v))
        return lv
    if m == 'clear':
        ex.store(LV(lv.root, lv.path, None), ex.lit(''))
        return U
    if m in ('begin', 'cbegin'):
        return begin(ex, ex.aslv(lv, ty))
    if m in ('end', 'cend'):
        return end(ex, ex.aslv(lv, ty))
    if m in ('erase', 'insert', 'replace', 'resize', 'swap', 'pop_back'):
        ex.store(LV(lv.root, lv.path, None), ex.fresh('str', STR))
        return lv
    if m in ('reserve', 'seekp', 'precision', 'flush', 'copyfmt', 'setf', 'width', 'fill'):
        return U
    if m == 'starts_with' or m == 'ends_with':
        return z3.Function('str_' + m, STR, A[0].sort(), BOOL)(s, A[0])
    return NotImplemented


# ------------------------------------------------------------------------------------------------ dispatch
def base_of(cls):
    p = cls.find('<')
    return cls if p < 0 else cls[:p]


SEQ_CLS = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::initializer_list', 'std::forward_list', 'std::queue', 'std::stack', 'std::_Vector_base'}
SET_CLS = {'eckit::DenseSet', 'std::set', 'std::unordered_set', 'std::map', 'std::unordered_map', 'std::_Rb_tree'}
PTR_CLS = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr', 'std::__uniq_ptr_impl'}
OPT_CLS = {'std::optional', 'std::_Optional_base', 'std::_Optional_base_impl'}
ITER_CLS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::reverse_iterator', 'std::_List_iterator',
            'std::_List_const_iterator', 'std::_Deque_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base')


def call(ex, f, obj, args, e):
    q = f.q
    U = z3.Const('unit', UNIT)
    if q.startswith('std::') or q.startswith('__gnu_cxx::') or (f.cls and (f.cls.startswith('std::') or f.cls.startswith('__gnu_cxx'))):
        USED.add(re.sub(r'<.*>', '', q))
    if f.cls is not None and not f.static:
        b = base_of(f.cls)
        m = f.name if f.get('op') is None else 'operator' + f.get('op')
        if b in SEQ_CLS or b in SET_CLS:
            lv = ex.aslv(obj)
            ty = lvty(ex, lv)
            if ty is None or ex.T.kind(ty) not in ('seq', 'set', 'map'):
                ty = cls_type(ex, f, e)
                lv = LV(lv.root, lv.path, ty)
            k = cont_kind(ex.load(lv))
            r = NotImplemented
            if k == 'seq':
                r = seq_method(ex, f, m, lv, args, ty)
            elif k in ('set', 'map'):
                r = assoc_method(ex, f, m, lv, args, ty)
            if r is NotImplemented:
                raise Unsupported('container method %s::%s' % (b, m))
            return r
        if b in STRS or b in STREAMSTR or b == 'std::basic_ostringstream' or (b.startswith('std::basic_') and is_term(ex.rv(obj)) and ex.rv(obj).sort() == STR):
            r = str_method(ex, f, m, obj if isinstance(obj, LV) else ex.newroot(ex.rv(obj), None), args, None)
            if r is NotImplemented:
                raise Unsupported('string method ' + m)
            return r
        if b in PTR_CLS or b == 'std::reference_wrapper':
            return ptr_method(ex, f, m, obj, args, e)
        if b in OPT_CLS:
            return opt_method(ex, f, m, obj, args, e)
        if b in ITER_CLS or (isinstance(ex.rv(obj), Iter)):
            return iter_method(ex, f, m, obj, args)
        if b in ('std::pair', 'std::tuple'):
            if m == 'operator=':
                o = ex.rv(obj)
                v = ex.rv(args[0])
                if isinstance(o, PyTup) and any(isinstance(i, LV) for i in o.items):
                    for i, it in enumerate(o.items):
                        if isinstance(it, Opq):
                            continue
                        x = v.items[i] if isinstance(v, PyTup) else dt_of(v).get(v, i)
                        ex.store(it, ex.rv(x))
                else:
                    ex.store(obj, v)
                return obj
        if b == 'std::variant':
            if m == 'index':
                v = ex.rv(obj)
                return dt_of(v).get(v, 0)
            if m == 'operator=':
                ty = lvty(ex, obj)
                v = ex.rv(args[0])
                if is_term(v) and v.sort() == ex.T.sort(ty):
                    ex.store(obj, v)
                else:
                    ex.store(obj, ctor(ex, f, ty, 'var', args, {}))
                return obj
        if b == 'std::function':
            c = ex.rv(obj)
            if m == 'operator()':
                if isinstance(c, (Closure, FuncRef)):
                    return ex.call_closure(c, None, args)
                ex.assume_note('call of an unknown std::function: result arbitrary')
                ex.st.taint = True
                return ex.uf('fncall_' + f.rt.s, [c] + args, f.rt) if ex.T.kind(f.rt) != 'void' else U
            if m == 'operator bool' or m == '<conv>':
                return z3.BoolVal(True) if isinstance(c, (Closure, FuncRef)) else ex.uf('fn_nonnull', [c], f.rt)
        if b in ('std::basic_ostream', 'std::basic_ios', 'std::ios_base', 'std::basic_ostream'):
            return obj
        if b in ('std::lock_guard', 'std::unique_lock', 'std::mutex', 'std::recursive_mutex', 'std::condition_variable', 'eckit::Mutex', 'eckit::Timer', 'eckit::MutexCond'):
            return U
        if b in ('eckit::Length', 'eckit::Offset'):
            return intlike(ex, f, m, obj, args)
        if b in ('std::atomic', 'std::__atomic_base'):
            if m in ('load', '<conv>', 'operator T'):
                return ex.rv(obj)
            if m in ('store', 'operator='):
                ex.store(obj, ex.rv(args[0]))
                return ex.rv(obj)
            v = ex.rv(obj)
            if m in ('operator++', 'operator--', 'operator+=', 'operator-=', 'fetch_add', 'fetch_sub'):
                d = ex.rv(args[0]) if args and m not in ('operator++', 'operator--') else z3.IntVal(1)
                nv = v + d if m in ('operator++', 'operator+=', 'fetch_add') else v - d
                ex.store(obj, nv)
                return v if m.startswith('fetch') or args and m in ('operator++', 'operator--') else nv
        if b == 'std::hash':
            return ex.uf('hash', args, f.rt)
        if b in ('std::less', 'std::equal_to'):
            x, y = ex.rv(args[0]), ex.rv(args[1])
            return ex.cmp('<' if b == 'std::less' else '==', x, y)
    h = FREE.get(q) or FREE.get(re.sub(r'<.*', '', q))
    if h is not None:
        r = h(ex, f, args, e)
        if r is not NotImplemented:
            return r
    op = f.get('op')
    if op in ('==', '!=', '<', '>', '<=', '>=') and (q.startswith('std::') or q.startswith('__gnu_cxx::') or q.startswith('eckit::operator')) and len(args) == 2:
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, Iter) or isinstance(b, Iter):
            return ex.cmp(op, a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):     # optional == nullopt
            o = b if isinstance(a, Opq) else a
            if is_term(o) and dt_of(o) is not None and dt_of(o).key.startswith('Opt<'):
                r = Not(dt_of(o).get(o, 0))
                return r if op == '==' else Not(r)
        if isinstance(a, PyTup) or isinstance(b, PyTup):
            a, b = ex.term(a), ex.term(b)
        if op in ('==', '!='):
            if is_term(a) and is_term(b):
                # optional<T> == T
                if a.sort() != b.sort():
                    da, db = dt_of(a), dt_of(b)
                    if da is not None and da.key.startswith('Opt<') and da.fsorts[1] == b.sort():
                        r = And(da.get(a, 0), eq(ex, da.get(a, 1), b, None))
                        return r if op == '==' else Not(r)
                    if {a.sort(), b.sort()} <= {INT, REAL}:
                        r = ex.cmp('==', a, b)
                        return r if op == '==' else Not(r)
                    raise Unsupported('== of %s and %s' % (a.sort(), b.sort()))
                r = eq(ex, a, b, f.pt[0].strip() if f.pt else None)
                return r if op == '==' else Not(r)
            return ex.cmp(op, a, b)
        if is_term(a) and is_term(b) and a.sort() == b.sort() and a.sort() in (STR, INT, REAL):
            return ex.cmp(op, a, b)
        if is_term(a) and is_term(b) and a.sort() == b.sort():
            key = mangle(str(a.sort()))
            rank = z3.Function('rank_' + key, a.sort(), REAL)
            return {'<': rank(a) < rank(b), '>': rank(a) > rank(b), '<=': rank(a) <= rank(b), '>=': rank(a) >= rank(b)}[op]
    if op == '+' and len(args) == 2 and (q.startswith('std::') or q.startswith('__gnu_cxx')):
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, Iter) or isinstance(b, Iter):
            return iter_arith(ex, '+', a, b)
        if is_term(a) and is_term(b):
            ch = z3.Function('str_fill1', INT, STR)
            a = ch(a) if a.sort() == INT else a
            b = ch(b) if b.sort() == INT else b
            if a.sort() == STR and b.sort() == STR:
                return str_cat(ex, a, b)
    if op == '-' and len(args) == 2 and isinstance(ex.rv(args[0]), Iter):
        return iter_arith(ex, '-', ex.rv(args[0]), ex.rv(args[1]))
    if q.startswith('eckit::operator') and len(args) == 2 and all(is_term(ex.rv(a)) and ex.rv(a).sort() == INT for a in args):
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return ex.cmp(op, a, b)
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
    return NotImplemented


def cls_type(ex, f, e):
    """container type from the object expression's type"""
    tu = ex.frame.tu
    for k in ('ot',):
        if k in e:
            t = tu.ty(e[k])
            t = t.to if t.k in ('ptr', 'ref') else t
            if ex.T.kind(t) in ('seq', 'set', 'map'):
                return t
            # smart pointer
            if t.k == 'rec' and t.args and isinstance(t.args[0], type(t)):
                return t.args[0]
    if e.get('args'):
        a0 = e['args'][0]
        if 't' in a0:
            t = tu.ty(a0['t']).strip()
            if ex.T.kind(t) in ('seq', 'set', 'map'):
                return t
    raise Unsupported('container type of ' + f.id)


def intlike(ex, f, m, obj, args):
    v = ex.rv(obj)
    op = f.get('op')
    if m in ('<conv>',) or m.startswith('operator long') or m.startswith('operator unsigned'):
        return v
    if op in ('+=', '-=', '*=', '/='):
        r = ex.rv(args[0])
        n = {'+=': lambda: v + r, '-=': lambda: v - r, '*=': lambda: v * r, '/=': lambda: v / r}[op]()
        ex.store(obj, n)
        return obj
    if op == '=':
        ex.store(obj, ex.rv(args[0]))
        return obj
    if op in ('++', '--'):
        n = v + 1 if op == '++' else v - 1
        ex.store(obj, n)
        return v if args else obj
    if op in ('==', '!=', '<', '>', '<=', '>='):
        return ex.cmp(op, v, ex.rv(args[0]))
    if op in ('+', '-', '*', '/'):
        r = ex.rv(args[0]) if args else None
        if r is None:
            return -v
        return {'+': lambda: v + r, '-': lambda: v - r, '*': lambda: v * r, '/': lambda: v / r}[op]()
    return NotImplemented


def pointee(ex, f, obj, e):
    t = None
    if isinstance(obj, LV) and obj.ty is not None:
        t = obj.ty.strip()
    if t is None or t.k != 'rec' or not t.args:
        t = None
        for k in ('ot',):
            if k in e:
                x = ex.frame.tu.ty(e[k])
                x = x.to if x.k in ('ptr', 'ref') else x
                if x.k == 'rec' and x.args:
                    t = x
        if t is None and e.get('args') and 't' in e['args'][0]:
            x = ex.frame.tu.ty(e['args'][0]['t']).strip()
            if x.k == 'rec' and x.args:
                t = x
    if t is None:
        rt = f.rt
        if rt.k in ('ptr', 'ref'):
            return rt.to
        raise Unsupported('pointee')
    return t.args[0]


def ptr_method(ex, f, m, obj, args, e):
    v = ex.rv(obj)
    if base_of(f.cls) == 'std::reference_wrapper' and m in ('get', '<conv>') and is_term(v) and v.sort() != INT:
        return obj
    U = z3.Const('unit', UNIT)
    if m in ('get', 'lock', 'release'):
        if m == 'release' and isinstance(obj, LV):
            ex.store(LV(obj.root, obj.path, None), z3.IntVal(0))
        return v
    if m in ('operator->', 'operator*'):
        p = pointee(ex, f, obj, e)
        if isinstance(v, (ThisPtr, PtrTo)):
            return v.lv
        if m == 'operator->':
            # the enclosing MCall/Member dereferences again: hand over a typed location
            return PtrTo(ex.deref(v, p)) if not isinstance(v, Iter) else v
        return ex.deref(v, p)
    if m in ('<conv>', 'operator bool'):
        if isinstance(v, (ThisPtr, PtrTo)):
            if base_of(f.cls) == 'std::reference_wrapper':
                return v.lv
            return z3.BoolVal(True)
        if base_of(f.cls) == 'std::reference_wrapper':
            return ex.deref(v, pointee(ex, f, obj, e))
        return v != 0
    if m == 'expired':
        return v == 0
    if m == 'reset':
        ex.store(LV(obj.root, obj.path, None), ex.rv(args[0]) if args else z3.IntVal(0))
        return U
    if m == 'operator=':
        ex.store(LV(obj.root, obj.path, None), ex.rv(args[0]) if not is_opq(ex, args[0]) else z3.IntVal(0))
        return obj
    if m == 'swap':
        b = ex.rv(args[0])
        ex.store(LV(obj.root, obj.path, None), b)
        ex.store(LV(args[0].root, args[0].path, None), v)
        return U
    if m == 'use_count':
        return ex.fresh('use_count', INT)
    if m == 'operator[]':
        raise Unsupported('unique_ptr<T[]>')
    raise Unsupported('smart pointer method ' + m)


def opt_method(ex, f, m, obj, args, e):
    v = ex.rv(obj)
    d = dt_of(v)
    if d is None:
        raise Unsupported('optional')
    lv = ex.aslv(obj)
    ty = lvty(ex, lv)
    if ty is None or ty.tname != 'std::optional':
        ty = None
        for k in ('ot',):
            if k in e:
                t = ex.frame.tu.ty(e[k])
                t = t.to if t.k in ('ptr', 'ref') else t
                if t.tname == 'std::optional':
                    ty = t
        if ty is None and e.get('args') and 't' in e['args'][0]:
            t = ex.frame.tu.ty(e['args'][0]['t']).strip()
            if t.tname == 'std::optional':
                ty = t
    vt = ty.args[0] if ty is not None else None
    if m in ('has_value', '<conv>', 'operator bool', '_M_is_engaged'):
        return d.get(v, 0)
    if m in ('value',):
        if not ex.choose(d.get(v, 0)):
            raise CppThrow('std::bad_optional_access')
        return lv.ext(('o',), vt)
    if m in ('operator*', 'operator->', '_M_get'):
        ex.safe('optional has a value', d.get(v, 0))
        x = lv.ext(('o',), vt)
        return PtrTo(x) if m == 'operator->' else x
    if m == 'value_or':
        return Ite(d.get(v, 0), d.get(v, 1), ex.term(args[0], vt))
    if m == 'reset':
        ex.store(LV(lv.root, lv.path, None), d.make(z3.BoolVal(False), d.get(v, 1)))
        return z3.Const('unit', UNIT)
    if m == 'emplace':
        x = construct_as(ex, vt, args)
        ex.store(LV(lv.root, lv.path, None), d.make(z3.BoolVal(True), x))
        return lv.ext(('o',), vt)
    if m == 'operator=':
        x = ex.rv(args[0])
        if isinstance(x, Opq):
            n = d.make(z3.BoolVal(False), d.get(v, 1))
        elif is_term(x) and x.sort() == d.sort:
            n = x
        else:
            n = d.make(z3.BoolVal(True), construct_as(ex, vt, [x]) if vt is not None else ex.term(x))
        ex.store(LV(lv.root, lv.path, None), n)
        return lv
    if m == 'swap':
        raise Unsupported('optional swap')
    raise Unsupported('optional method ' + m)


def iter_method(ex, f, m, obj, args):
    v = ex.rv(obj)
    if type(v).__name__ == 'ExprRef' and m in ('operator*', 'operator->'):
        # declared without an initialiser and never assigned on this path
        ex.safe('the iterator is initialised when it is dereferenced', z3.BoolVal(False))
        raise PathDone()
    if not isinstance(v, Iter):
        raise Unsupported('iterator method on %s' % type(v).__name__)
    if m == 'operator*':
        return iter_deref(ex, v)
    if m == 'operator->':
        x = iter_deref(ex, v)
        return PtrTo(x) if isinstance(x, LV) else PtrTo(ex.newroot(x, None)) if is_term(x) else PtrTup(x)
    if m in ('operator++', 'operator--'):
        n = iter_add(ex, v, 1 if m == 'operator++' else -1)
        ex.store(LV(obj.root, obj.path, None), n)
        return v if args else obj
    if m in ('operator+', 'operator-'):
        return iter_arith(ex, m[-1], v, ex.rv(args[0]))
    if m in ('operator+=', 'operator-='):
        ex.store(LV(obj.root, obj.path, None), iter_arith(ex, m[-2], v, ex.rv(args[0])))
        return obj
    if m == 'operator=':
        ex.store(LV(obj.root, obj.path, None), ex.rv(args[0]))
        return obj
    if m == 'operator[]':
        return iter_deref(ex, iter_arith(ex, '+', v, ex.rv(args[0])))
    if m in ('operator==', 'operator!='):
        r = iter_eq(ex, v, ex.rv(args[0]))
        return r if m == 'operator==' else Not(r)
    if m == 'base':
        return v
    raise Unsupported('iterator method ' + m)


class PtrTup(PtrTo):
    def __init__(self, t):
        self.lv = t


# ------------------------------------------------------------------------------------------------ free functions
FREE = {}
LAZY = {}


def free(*names):
    def d(fn):
        for n in names:
            FREE[n] = fn
        return fn
    return d


def lazyf(*names):
    def d(fn):
        for n in names:
            LAZY[n] = fn
        return fn
    return d


@lazyf('eckit::Log::debug', 'eckit::Log::info', 'eckit::Log::warning', 'eckit::Log::error', 'eckit::Log::status', 'eckit::Log::userInfo', 'eckit::Log::panic')
def _log(ex, e, f, obj=None):
    return Opq('log')


@free('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof')
def _move(ex, f, args, e):
    if f.q == 'std::move' and len(args) == 3:
        return copy_range(ex, [ex.rv(a) for a in args])
    if f.q in ('std::addressof',):
        return PtrTo(ex.aslv(args[0]))
    return args[0]


@free('std::make_pair', 'std::make_tuple', 'std::forward_as_tuple', 'std::tie')
def _mkpair(ex, f, args, e):
    if f.q in ('std::tie', 'std::forward_as_tuple'):
        return PyTup(list(args), None)
    rt = f.rt
    its = []
    for a, t in zip(args, rt.args):
        v = ex.rv(a)
        its.append(ex.fit(ex.coerce(v, t), t) if is_term(v) else v)
    return PyTup(its, rt.args)


@free('std::get')
def _get(ex, f, args, e):
    m = re.search(r'std::get<([^(]*)>\(', f.id)
    a = args[0]
    v = ex.rv(a)
    at = f.pt[0].strip()
    sel = m.group(1) if m else '0'
    g = re.match(r'(\d+)', sel)
    if at.tname == 'std::variant':
        if g and not sel.startswith('std'):
            i = int(g.group(1))
        else:
            rt = f.rt.strip()
            i = [j for j, t in enumerate(at.args) if t.s == rt.s][0]
        d = dt_of(v)
        if not ex.choose(d.get(v, 0) == i):
            raise CppThrow('std::bad_variant_access')
        return ex.aslv(a, at).ext(('vr', i), at.args[i])
    i = int(g.group(1))
    if isinstance(v, PyTup):
        return v.items[i] if isinstance(v.items[i], LV) or not isinstance(a, LV) else a.ext(('t', i), at.args[i] if at.args else None)
    if at.tname == 'std::array':
        return ex.aslv(a, at).ext(('i', z3.IntVal(i)), at.args[0])
    if isinstance(a, LV):
        return a.ext(('t', i), at.args[i])
    return dt_of(v).get(v, i)


@free('std::holds_alternative')
def _holds(ex, f, args, e):
    at = f.pt[0].strip()
    m = re.search(r'holds_alternative<(.*)>\(', f.id)
    v = ex.rv(args[0])
    d = dt_of(v)
    s = m.group(1)
    best = None
    for i, t in enumerate(at.args):
        if s == t.s or s.startswith(t.s + ','):
            if best is None or len(t.s) > len(at.args[best].s):
                best = i
    if best is None:
        raise Unsupported('holds_alternative ' + s)
    return d.get(v, 0) == best


@free('std::make_shared', 'std::make_unique')
def _mk(ex, f, args, e):
    t = f.rt.args[0]
    v = None
    try:
        v = construct_as(ex, t, args)
    except Unsupported as u:
        # external object
        if ex.T.kind(t) == 'opaque':
            v = None
        else:
            raise
    return ex.alloc(t, v)


@free('std::make_optional')
def _mkopt(ex, f, args, e):
    t = f.rt.args[0]
    return opt_dt(ex.T.sort(t)).make(z3.BoolVal(True), construct_as(ex, t, args))


@free('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast')
def _ptrcast(ex, f, args, e):
    v = ex.rv(args[0])
    if 'dynamic' in f.q:
        fn = z3.Function('dyncast_' + mangle(f.rt.args[0].s), INT, BOOL)
        return Ite(And(v != 0, fn(v)), v, z3.IntVal(0))
    return v


@free('std::max', 'std::min')
def _minmax(ex, f, args, e):
    if len(args) != 2:
        return NotImplemented
    a, b = ex.rv(args[0]), ex.rv(args[1])
    if a.sort() == STR:
        c = str_cmp(ex, '<', a, b)
    else:
        c = a < b
    return Ite(c, b, a) if f.q == 'std::max' else Ite(ex.cmp('<', b, a), b, a)


@free('std::swap')
def _swap(ex, f, args, e):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    ex.store(LV(args[0].root, args[0].path, None), b)
    ex.store(LV(args[1].root, args[1].path, None), a)
    return z3.Const('unit', UNIT)


@free('std::exchange')
def _exch(ex, f, args, e):
    a = ex.rv(args[0])
    ex.store(args[0], ex.rv(args[1]))
    return a


@free('std::begin', 'std::cbegin')
def _begin(ex, f, args, e):
    return begin(ex, ex.aslv(args[0], f.pt[0].strip()))


@free('std::end', 'std::cend')
def _end(ex, f, args, e):
    return end(ex, ex.aslv(args[0], f.pt[0].strip()))


@free('std::distance')
def _dist(ex, f, args, e):
    return iter_arith(ex, '-', ex.rv(args[1]), ex.rv(args[0]))


@free('std::next', 'std::prev')
def _next(ex, f, args, e):
    n = ex.rv(args[1]) if len(args) > 1 else z3.IntVal(1)
    return iter_arith(ex, '+' if f.q == 'std::next' else '-', ex.rv(args[0]), n)


@free('std::advance')
def _adv(ex, f, args, e):
    ex.store(args[0], iter_arith(ex, '+', ex.rv(args[0]), ex.rv(args[1])))
    return z3.Const('unit', UNIT)


@free('std::to_string')
def _tostring(ex, f, args, e):
    return tostr(ex, ex.rv(args[0]))


@free('std::abs', 'abs', 'std::labs')
def _abs(ex, f, args, e):
    v = ex.rv(args[0])
    return Ite(v >= 0, v, -v)


def findpos(ex, s, p, ep, v, ety=None):
    """index of the first element of s[p..ep) equal to v, or ep"""
    S = s.sort()
    fi = z3.Function('find_' + mangle(S.name()), S, INT, INT, v.sort(), INT)

    def ax():
        a, x = z3.Const('fx_s', S), z3.Const('fx_v', v.sort())
        lo, hi, i = z3.Ints('fx_p fx_e fx_i')
        r = fi(a, lo, hi, x)
        el = select(sarr(a), i)
        return [z3.ForAll([a, lo, hi, x], z3.Implies(lo <= hi, z3.And(lo <= r, r <= hi, z3.Implies(r < hi, eq(ex, select(sarr(a), r), x, ety)))), patterns=[r]),
                z3.ForAll([a, lo, hi, x, i], z3.Implies(z3.And(lo <= i, i < r), Not(eq(ex, el, x, ety))), patterns=[z3.MultiPattern(r, el)])]
    ex.axiom(('find', S.name()), ax)
    return fi(s, p, ep, v)


@free('std::find')
def _find(ex, f, args, e):
    b, en = ex.rv(args[0]), ex.rv(args[1])
    v = ex.rv(args[2])
    if not isinstance(b, Iter):
        raise Unsupported('std::find over %s' % type(b).__name__)
    if b.kind == 'set':
        return Iter('set', b.lv, key=v, isend=Not(select(b.base, v)), base=b.base)
    s, p = as_idx(ex, b)
    ety = ex.T.elem(lvty(ex, b.lv)) if lvty(ex, b.lv) is not None else None
    ep = en.pos
    if v.sort() != sarr(s).sort().range():
        v = ex.fit(v, ety)
    r = findpos(ex, s, p, ep, v, ety)
    return Iter('seq', b.lv, pos=r, rev=b.rev)


def pred_formula(ex, c, s, ety, i, guard):
    """formula of a side-effect free predicate closure on element i of s (i a variable)"""
    st0 = ex.st
    L = len(st0.pc)
    env0 = dict(st0.env)

    def run():
        ex.branch(guard)
        el = select(sarr(s), i)
        root = ex.newroot(el, ety, 'pel')
        r = ex.rv(ex.call_closure(c, None, [root]))
        return r
    outs = ex.explore(run, emit=False, tag='pred')
    cond, side = [], []
    for o in outs:
        if o.kind != 'normal' or not is_term(o.val):
            raise Unsupported('predicate with side exits')
        for k, v in env0.items():
            if k in o.st.env and not ex.same(o.st.env[k], v):
                raise Unsupported('predicate with side effects')
        br = [f for k, f in o.st.pc[L:] if k == 'b'][1:]
        side += [z3.Implies(And(br), f) for k, f in o.st.pc[L:] if k == 'a']
        cond.append((And(br), o.val))
    r = cond[-1][1]
    for g, v in cond[-2::-1]:
        r = Ite(g, v, r)
    fr = [n for n in X.consts_of(r) if '!' in n and n not in env_consts(ex, st0)]
    return r, side


def env_consts(ex, st):
    out = set()
    for v in list(st.env.values()) + list(st.heap.values()) + list(st.ghost.values()):
        if is_term(v):
            out |= X.consts_of(v)
        elif isinstance(v, Iter) and v.pos is not None:
            out |= X.consts_of(v.pos)
    for _, f in st.pc:
        out |= X.consts_of(f)
    return out


def alg_range(ex, args):
    b, en = ex.rv(args[0]), ex.rv(args[1])
    if not isinstance(b, Iter):
        raise Unsupported('algorithm over %s' % type(b).__name__)
    if b.kind == 'seq':
        s, p = as_idx(ex, b)
        return b, s, p, en.pos
    if b.kind in ('set',):
        q = range_to_seq(ex, b, en, None)
        return b, q, z3.IntVal(0), slen(q)
    raise Unsupported('algorithm over a map')


@free('std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if_not')
def _find_if(ex, f, args, e):
    b, s, p, ep = alg_range(ex, args)
    if b.kind == 'set' and 'find' in f.q:
        raise Unsupported('find_if over a set')
    ety = None
    t = lvty(ex, b.lv)
    if t is not None:
        ety = ex.T.elem(t) if b.kind == 'seq' else t.args[0]
    i = z3.Int('pf_i%d' % ex.key('bv'))
    g = z3.And(i >= p, i < ep)
    P, side = pred_formula(ex, ex.rv(args[2]), s, ety, i, g)
    for sd in side:
        ex.assume(z3.ForAll([i], z3.Implies(g, sd)))
    x = select(sarr(s), i)
    if f.q == 'std::all_of':
        return z3.ForAll([i], z3.Implies(g, P))
    if f.q == 'std::any_of':
        return z3.Exists([i], z3.And(g, P))
    if f.q == 'std::none_of':
        return z3.ForAll([i], z3.Implies(g, Not(P)))
    if f.q == 'std::find_if_not':
        P = Not(P)
    r = ex.fresh('findif', INT)
    ex.assume(z3.And(p <= r, r <= ep))
    ex.assume(z3.Implies(r < ep, z3.substitute(P, (i, r))))
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= p, i < r), Not(P)), patterns=[x]))
    return Iter('seq', b.lv, pos=r, rev=b.rev)


@free('std::accumulate', 'std::for_each', 'std::transform', 'std::copy', 'std::copy_if', 'std::count_if', 'std::fill', 'std::reduce')
def _loopalg(ex, f, args, e):
    import loops
    return loops.algorithm(ex, f, args, e)


def copy_range(ex, A):
    raise Unsupported('std::move range')


@free('std::back_inserter', 'std::inserter')
def _back(ex, f, args, e):
    return PyTup([z3.StringVal('back'), args[0]])


@free('std::lower_bound', 'std::upper_bound', 'std::binary_search', 'std::sort', 'std::stable_sort', 'std::unique', 'std::remove_if', 'std::remove', 'std::reverse')
def _sorts(ex, f, args, e):
    b, en = ex.rv(args[0]), ex.rv(args[1])
    if not isinstance(b, Iter) or b.kind != 'seq':
        raise Unsupported(f.q)
    s, p = as_idx(ex, b)
    if f.q in ('std::sort', 'std::stable_sort'):
        # permutation of the same elements (order itself is not modelled beyond membership)
        r = ex.fresh('sorted', s.sort())
        n = slen(s)
        perm = z3.Function('perm_' + r.decl().name(), INT, INT)
        inv = z3.Function('permi_' + r.decl().name(), INT, INT)
        i = z3.Int('so_i')
        ex.assume(slen(r) == n)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(perm(i) >= 0, perm(i) < n, inv(perm(i)) == i, select(sarr(r), i) == select(sarr(s), perm(i)))), patterns=[select(sarr(r), i)]))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(inv(i) >= 0, inv(i) < n, perm(inv(i)) == i, select(sarr(r), inv(i)) == select(sarr(s), i))), patterns=[select(sarr(s), i)]))
        ex.store(LV(b.lv.root, b.lv.path, None), r)
        return z3.Const('unit', UNIT)
    if f.q == 'std::reverse':
        r = ex.fresh('reversed', s.sort())
        n = slen(s)
        i = z3.Int('so_i')
        ex.assume(slen(r) == n)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), select(sarr(r), i) == select(sarr(s), n - 1 - i)), patterns=[select(sarr(r), i)]))
        ex.store(LV(b.lv.root, b.lv.path, None), r)
        return z3.Const('unit', UNIT)
    raise Unsupported(f.q)


@free('memcmp', 'std::memcmp', 'memset', 'std::memset', 'memcpy', 'std::memcpy', 'strcmp', 'strncmp')
def _mem(ex, f, args, e):
    if f.name == 'strcmp':
        a, b = ex.rv(args[0]), ex.rv(args[1])
        str_rank_axioms(ex)
        return Ite(a == b, z3.IntVal(0), Ite(F_rank(a) < F_rank(b), z3.IntVal(-1), z3.IntVal(1)))
    raise Unsupported(f.q)


@free('std::isdigit', 'isdigit', 'std::isspace', 'isspace', 'tolower', 'toupper', 'std::tolower', 'std::toupper')
def _ctype(ex, f, args, e):
    return z3.Function('c_' + f.name, INT, INT)(ex.rv(args[0]))


@free('time', 'std::time', 'getpid', 'std::this_thread::get_id', 'std::chrono::system_clock::now')
def _time(ex, f, args, e):
    return ex.fresh_ty(f.name, f.rt)
