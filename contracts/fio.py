"""Contracts of reading: a handle over several fields is the concatenation of their bytes."""
import z3
import lib, recfun
from contract import Contract, V, pointed
from execu import And, Or, Not, Ite
from sorts import STR, INT, BOOL
from archive import ref, ghost, SETS

SRC = ['src/fdb5/io/FieldHandle.cc', 'src/fdb5/io/HandleGatherer.cc', 'src/fdb5/api/helpers/ListElement.cc', 'src/fdb5/api/helpers/ListIterator.cc']
F = 'fdb5::FieldHandle::'
D = 'eckit::DataHandle::'
INTS = z3.ArraySort(INT, INT)
BYTES = z3.ArraySort(INT, INTS)
# hopen: the handle is open; hpos: its next byte; hsize: how many bytes it has; cont: its bytes; mem: the memory of the process
G = dict(hopen=SETS, hpos=INTS, hsize=INTS, cont=BYTES, mem=INTS)
seekable = z3.Function('handle_canSeek', INT, BOOL)
cap = z3.Function('buffer_capacity', INT, INT)          # of the buffer allocated by the constructor
glob = z3.Function('byte_of_the_stream', INT, INT)      # the concatenation of the fields
S_ = z3.Select


def fa(v, body, patterns=None):
    """forall, with the trigger when the term can be one"""
    if patterns:
        try:
            return z3.ForAll(v, body, patterns=patterns)
        except z3.Z3Exception:
            pass
    return z3.ForAll(v, body)


def ini(c):
    for n, s in G.items():
        ghost(c, n, s)


def pre_fn(v):
    """sum of the lengths of the first k fields"""
    h = v.datahandles
    s = h.arr.sort()
    from sorts import dt_of

    def first(a, k):
        t = z3.Select(a, k)
        return dt_of(t).get(t, 0)
    P = recfun.RecFun('fields_before', [s, INT], INT, lambda a, k: [z3.Implies(k <= 0, P(a, k) == 0), z3.Implies(k > 0, P(a, k) == P(a, k - 1) + first(a, k - 1)), z3.Implies(k >= 0, P(a, k + 1) == P(a, k) + first(a, k))])
    return lambda k: P(h.arr, k)


def base(c, v, gh):
    """what every method keeps: sizes, ownership and the state of the handles"""
    ex = c.ex
    n, H = v.datahandles.n, (lambda i: v.datahandles[i].second)
    L = lambda i: v.datahandles[i].first
    P = pre_fn(v)
    i, j = c.fresh('i'), c.fresh('j')
    inr = And(0 <= i, i < n)
    al = gh.get('alloc', z3.Const('alloc0', INT))
    cur = v.current
    return [('position among the fields', And(0 <= v.currentIdx, v.currentIdx <= n)),
            ('lengths', fa([i], z3.Implies(inr, And(L(i) >= 0, H(i) > 0, H(i) <= al, S_(gh['hsize'], H(i)) == L(i))), patterns=[v.datahandles[i].t])),
            ('fields have handles of their own', fa([i, j], z3.Implies(And(inr, 0 <= j, j < n, i != j), H(i) != H(j)))),
            ('the stream', fa([i, j], z3.Implies(And(inr, 0 <= j, j < L(i)), S_(S_(gh['cont'], H(i)), j) == glob(P(i) + j)), patterns=[S_(S_(gh['cont'], H(i)), j)])),
            ('total size', v.totalSize == P(n)),
            ('sums grow', fa([i, j], z3.Implies(And(0 <= i, i <= j, j <= n), P(i) <= P(j)), patterns=[z3.MultiPattern(P(i), P(j))])),
            ('the buffer is large enough', fa([i], z3.Implies(And(inr, Not(seekable(H(i)))), L(i) <= cap(v.buffer)), patterns=[v.datahandles[i].t])),
            ('seekable when all fields are', z3.Implies(v.seekable, fa([i], z3.Implies(inr, seekable(H(i))), patterns=[v.datahandles[i].t]))),
            ('a copy in memory is not the handle of a field', z3.Implies(v.currentMemoryHandle, And(cur > 0, cur <= al, seekable(cur), fa([i], z3.Implies(inr, H(i) != cur), patterns=[v.datahandles[i].t]))))]


def reading(c, v, gh):
    """the current field is open and its bytes are those of the stream"""
    n, H, L = v.datahandles.n, (lambda i: v.datahandles[i].second), (lambda i: v.datahandles[i].first)
    P = pre_fn(v)
    i, j = c.fresh('i'), c.fresh('j')
    cur, k = v.current, v.currentIdx
    at = k < n
    return base(c, v, gh) + [
        ('the current field is open', z3.Implies(at, And(cur != 0, S_(gh['hopen'], cur), S_(gh['hsize'], cur) == L(k), seekable(cur)))),
        ('its position', z3.Implies(at, And(0 <= S_(gh['hpos'], cur), S_(gh['hpos'], cur) <= L(k)))),
        ('its bytes', z3.Implies(at, fa([j], z3.Implies(And(0 <= j, j < L(k)), S_(S_(gh['cont'], cur), j) == glob(P(k) + j)), patterns=[S_(S_(gh['cont'], cur), j)]))),
        ('it is the field itself or a copy in memory', z3.Implies(And(at, Not(v.currentMemoryHandle)), cur == H(k))),
        ('no other handle is open', fa([i], z3.Implies(And(0 <= i, i < n, S_(gh['hopen'], H(i))), And(i == k, cur == H(i))), patterns=[v.datahandles[i].t]))]


def closedall(c, v, gh):
    i = c.fresh('i')
    return [('no handle is open', fa([i], z3.Implies(And(0 <= i, i < v.datahandles.n), Not(S_(gh['hopen'], v.datahandles[i].second))), patterns=[v.datahandles[i].t]))]


def pos(v, gh):
    return pre_fn(v)(v.currentIdx) + Ite(v.currentIdx < v.datahandles.n, S_(gh['hpos'], v.current), z3.IntVal(0))


def same(c):
    a, b = c.this, c.old
    return [('the fields are kept', And(a.datahandles.t == b.datahandles.t, a.totalSize == b.totalSize, a.buffer == b.buffer, a.seekable == b.seekable))]


class _C:
    def __init__(self, ex):
        self.ex = ex

    def fresh(self, n, sort=INT):
        return z3.Const('%s?%d' % (n, self.ex.key('q')), sort)


def fill_tmpl(lp):
    """the loop that copies a field into memory"""
    c = _C(lp.ex)
    cur = lambda st: lp.this_at(st).current
    hp = lambda st: S_(st.ghost['hpos'], cur(lp.entry))
    delta = lambda st: hp(st) - hp(lp.entry)
    out = [('same handle', lambda st: cur(st) == cur(lp.entry)),
           ('position grows', lambda st: And(delta(st) >= 0, hp(st) <= S_(st.ghost['hsize'], cur(lp.entry))))]
    h, x = z3.Int('h_tm'), z3.Int('x_tm')
    out.append(('other handles stay', lambda st: fa([h], z3.Implies(h != cur(lp.entry), S_(st.ghost['hpos'], h) == S_(lp.entry.ghost['hpos'], h)))))
    for a in [x for x in lp.ints() if x.kind == 'env']:
        out.append(('advances with the handle', lambda st, a=a: lp.c(st, a) - lp.e(a) == delta(st)))
        out.append(('decreases with the handle', lambda st, a=a: lp.e(a) - lp.c(st, a) == delta(st)))
        out.append(('bytes so far', lambda st, a=a: fa([x], S_(st.ghost['mem'], x) == Ite(And(lp.e(a) <= x, x < lp.e(a) + delta(st)), S_(S_(st.ghost['cont'], cur(lp.entry)), hp(lp.entry) + x - lp.e(a)), S_(lp.entry.ghost['mem'], x)))))
    return out


def read_tmpl(lp):
    """the loop over read1"""
    c = _C(lp.ex)
    v = lambda st: lp.this_at(st)
    p = lambda st: pos(v(st), st.ghost)
    delta = lambda st: p(st) - p(lp.entry)
    x = z3.Int('x_tm')
    names = [n for n, _ in reading(c, v(lp.entry), lp.entry.ghost)]
    out = [(n, lambda st, k=k: reading(c, v(st), st.ghost)[k][1]) for k, n in enumerate(names)]

    def kept(st):
        a, b = v(st), v(lp.entry)
        return And(a.datahandles.t == b.datahandles.t, a.totalSize == b.totalSize, a.buffer == b.buffer, a.seekable == b.seekable)
    out.append(('the fields are kept', kept))
    out.append(('position grows', lambda st: And(delta(st) >= 0, p(st) <= v(st).totalSize)))
    for a in [x for x in lp.ints() if x.kind == 'env']:
        out.append(('advances with the position', lambda st, a=a: lp.c(st, a) - lp.e(a) == delta(st)))
        out.append(('decreases with the position', lambda st, a=a: lp.e(a) - lp.c(st, a) == delta(st)))
        out.append(('bytes so far', lambda st, a=a: fa([x], z3.Implies(And(lp.e(a) <= x, x < lp.e(a) + delta(st)), S_(st.ghost['mem'], x) == glob(p(lp.entry) + x - lp.e(a))), [S_(st.ghost['mem'], x)])))
    return out


def sum_tmpl(lp):
    P = pre_fn(lp.this_at(lp.entry))
    n = lp.this_at(lp.entry).datahandles.n
    out = [('all fields passed are before', lambda st: z3.BoolVal(True))]
    for cl, step in lp.counters:
        for a in lp.ints():
            if a.id() != cl.id():
                out.append(('sum of the fields before', lambda st, a=a, cl=cl: lp.c(st, a) == P(lp.c(st, cl))))
                out.append(('sum of the fields before', lambda st, a=a, cl=cl: And(lp.c(st, a) == P(lp.c(st, cl)), lp.c(st, cl) <= n)))
        out.append(('among the fields', lambda st, cl=cl: And(0 <= lp.c(st, cl), lp.c(st, cl) <= n)))
        for o in (lp.arg(0),) if lp_has_arg(lp) else ():
            out.append(('the byte lies in a later field', lambda st, o=o, cl=cl: Or(o < 0, o >= P(lp.c(st, cl)))))
    return out


def lp_has_arg(lp):
    try:
        lp.arg(0)
        return True
    except Exception:
        return False


def trusted(R):
    def g(c, n):
        return ghost(c, n, G[n])

    def put(c, n, v):
        c.ex.st.ghost[n] = z3.Store(g(c, n), ref(c), v)

    def opened(c):
        put(c, 'hopen', z3.BoolVal(True))
        put(c, 'hpos', z3.IntVal(0))
        return []
    isopen = lambda c: ('the handle is open', S_(g(c, 'hopen'), ref(c)))
    R.add(Contract(D + 'openForRead', nargs=0, trusted='eckit: opens the handle at its first byte', requires=lambda c: [('the handle is not open already', Not(S_(g(c, 'hopen'), ref(c))))], ensures=opened))
    R.add(Contract(D + 'canSeek', nargs=0, trusted='eckit: a constant of the handle', ensures=lambda c: [('cs', c.ret == seekable(ref(c)))]))

    def closed(c):
        put(c, 'hopen', z3.BoolVal(False))
        return []
    R.add(Contract(D + 'close', nargs=0, trusted='eckit: closes the handle', ensures=closed))

    def rd(c):
        h, n, a = ref(c), c.args[1], c.args[0]
        p, sz = S_(g(c, 'hpos'), h), S_(g(c, 'hsize'), h)
        r = c.ret
        m0 = g(c, 'mem')
        m1 = c.ex.fresh('mem', INTS)
        c.ex.st.ghost['mem'] = m1
        put(c, 'hpos', p + Ite(r > 0, r, z3.IntVal(0)))
        x = c.fresh('a')
        return [('at most what was asked for and is there', z3.Implies(r > 0, And(r <= n, p + r <= sz))),
                ('something unless at the end', z3.Implies(And(n > 0, p < sz), r > 0)),
                ('nothing at the end', z3.Implies(Or(n <= 0, p >= sz), r <= 0)),
                ('the bytes', fa([x], S_(m1, x) == Ite(And(a <= x, x < a + r), S_(S_(g(c, 'cont'), h), p + x - a), S_(m0, x)), patterns=[S_(m1, x)]))]
    R.add(Contract(D + 'read', nargs=2, trusted='eckit: reads at most so many bytes, none only at the end', requires=lambda c: [isopen(c)], ensures=rd))

    def sk(c):
        put(c, 'hpos', c.args[0])
        return [('r', c.ret == c.args[0])]
    R.add(Contract(D + 'seek', nargs=1, trusted='eckit: the next byte is that one', requires=lambda c: [isopen(c), ('the handle can seek', seekable(ref(c))), ('within the field', And(0 <= c.args[0], c.args[0] <= S_(g(c, 'hsize'), ref(c))))], ensures=sk))
    R.add(Contract(D + 'position', nargs=0, trusted='eckit: the next byte', requires=lambda c: [isopen(c)], ensures=lambda c: [('p', c.ret == S_(g(c, 'hpos'), ref(c)))]))
    return g


def register(R):
    import sorts
    sorts.ADDR.append(1)
    S = SRC[:1]
    g = trusted(R)
    ALL = tuple(G) + ('alloc',)

    def newmem(c):
        r, b, n = c.ref, c.args[0], c.args[1]
        x = c.fresh('a')
        st = c.ex.st.ghost
        m0 = g(c, 'mem')
        A = c.ex.fresh('content', INTS)
        st['cont'] = z3.Store(g(c, 'cont'), r, A)
        st['hopen'] = z3.Store(g(c, 'hopen'), r, z3.BoolVal(False))
        st['hsize'] = z3.Store(g(c, 'hsize'), r, n)
        return [('content', fa([x], z3.Implies(And(0 <= x, x < n), S_(A, x) == S_(m0, b + x)), [S_(A, x)])), ('seekable', seekable(r))]
    R.add(Contract('eckit::MemoryHandle::<new>', trusted='eckit: a seekable handle whose bytes are those of the memory', ensures=newmem))
    i_ = z3.Int('i_del')
    R.add(Contract(D + '<dtor>', trusted='eckit: releases the handle', ensures=lambda c: []))

    def req(f):
        def r(c):
            ini(c)
            return f(c)
        return r
    gh = lambda c: c.ex.st.ghost
    outside = lambda c, a0, n0: None

    def kept_mem(c, v, extra=None):
        x = c.fresh('a')
        b = v.buffer
        out = Or(x < b, x >= b + cap(b))
        if extra is not None:
            out = And(out, extra(x))
        return [('memory outside the buffers', fa([x], z3.Implies(out, S_(gh(c)['mem'], x) == S_(c.gold['mem'], x)), patterns=[S_(gh(c)['mem'], x)]))]

    R.add(Contract(F + 'openCurrent', nargs=0, src=S, tmpl=fill_tmpl, modifies=('this',), ghosts=ALL,
                   requires=req(lambda c: base(c, c.this, gh(c)) + closedall(c, c.this, gh(c))),
                   ensures=lambda c: reading(c, c.this, gh(c)) + same(c) + kept_mem(c, c.this) + [('the field is the same', c.this.currentIdx == c.old.currentIdx), ('at its first byte', z3.Implies(c.this.currentIdx < c.this.datahandles.n, S_(gh(c)['hpos'], c.this.current) == 0))]))
    R.add(Contract(F + 'openForRead', nargs=0, src=S, modifies=('this',), ghosts=ALL,
                   requires=req(lambda c: base(c, c.this, gh(c)) + closedall(c, c.this, gh(c)) + [('it was closed', c.this.current == 0)]),
                   ensures=lambda c: reading(c, c.this, gh(c)) + same(c) + [('at the first byte', pos(c.this, gh(c)) == 0), ('the total size', c.ret == c.this.totalSize)]))

    def r1(c):
        b, n = c.args
        j = c.fresh('j')
        p0 = c.p0 = pos(c.old, c.gold)
        return reading(c, c.this, gh(c)) + same(c) + kept_mem(c, c.this, lambda x: Or(x < b, x >= b + c.ret)) + [
            ('at most what was asked for', And(0 <= c.ret, c.ret <= n)),
            ('the position', pos(c.this, gh(c)) == p0 + c.ret),
            ('nothing only at the end', (c.ret == 0) == (p0 >= c.this.totalSize)),
            ('the bytes', fa([j], z3.Implies(And(b <= j, j < b + c.ret), S_(gh(c)['mem'], j) == glob(p0 + j - b)), [S_(gh(c)['mem'], j)]))]

    def apart(c):
        b, n = c.args
        B = c.this.buffer
        return [('the buffers are apart', Or(b + n <= B, B + cap(B) <= b))]
    R.add(Contract(F + 'read1', nargs=2, src=S, modifies=('this',), ghosts=ALL, opts={'rec': True},
                   requires=req(lambda c: reading(c, c.this, gh(c)) + apart(c) + [('something is asked for', c.args[1] > 0)]), ensures=r1))
    R.add(Contract(F + 'position', nargs=0, src=S, ghosts=(), requires=req(lambda c: reading(c, c.this, gh(c))),
                   tmpl=sum_tmpl,
                   ensures=lambda c: [('bytes before the next one', c.ret == pos(c.this, gh(c)))]))
    R.add(Contract(F + 'close', nargs=0, src=S, modifies=('this',), ghosts=ALL, requires=req(lambda c: reading(c, c.this, gh(c))),
                   ensures=lambda c: base(c, c.this, gh(c)) + same(c) + closedall(c, c.this, gh(c)) + [('it can be opened again', c.this.current == 0), ('at the end', c.this.currentIdx == c.this.datahandles.n)]))
    R.add(Contract(F + 'rewind', nargs=0, src=S, modifies=('this',), ghosts=ALL, requires=req(lambda c: reading(c, c.this, gh(c))),
                   throws=lambda c: [('fields before cannot be read again', And(Not(c.old.seekable), c.old.currentIdx != 0))],
                   ensures=lambda c: reading(c, c.this, gh(c)) + same(c) + [('at the first byte', pos(c.this, gh(c)) == 0)]))
    R.add(Contract(F + 'seek', nargs=1, src=S, tmpl=sum_tmpl, modifies=('this',), ghosts=ALL, requires=req(lambda c: reading(c, c.this, gh(c))),
                   throws=lambda c: [('beyond the end, or before the current field', Or(c.args[0] < 0, c.args[0] > c.old.totalSize, And(Not(c.old.seekable), c.args[0] < pre_fn(c.old)(c.old.currentIdx))))],
                   ensures=lambda c: reading(c, c.this, gh(c)) + same(c) + [('at that byte', And(pos(c.this, gh(c)) == c.args[0], c.ret == c.args[0]))]))

    def rdens(c):
        b, n = c.args
        j = c.fresh('j')
        p0 = pos(c.old, c.gold)
        T = c.this.totalSize
        return reading(c, c.this, gh(c)) + same(c) + [
            ('as much as was asked for, or all that is left', c.ret == Ite(p0 + n <= T, n, T - p0)),
            ('the position', pos(c.this, gh(c)) == p0 + c.ret),
            ('the bytes', fa([j], z3.Implies(And(b <= j, j < b + c.ret), S_(gh(c)['mem'], j) == glob(p0 + j - b)), [S_(gh(c)['mem'], j)]))]
    R.add(Contract(F + 'read', nargs=2, src=S, tmpl=read_tmpl, opts={'split': True}, modifies=('this',), ghosts=ALL, requires=req(lambda c: reading(c, c.this, gh(c)) + apart(c) + [('something is asked for', c.args[1] > 0)]), ensures=rdens))

    register_gather(R)
    register_list(R)


def register_gather(R):
    S = SRC[1:2]
    H = 'fdb5::HandleGatherer::'
    INTO = z3.ArraySort(INT, INT)

    def mrg(c):
        m = ghost(c, 'minto', INTO)
        c.ex.st.ghost['minto'] = Ite(c.ret, z3.Store(m, c.args[0], ref(c)), m)
        return []
    R.add(Contract(D + 'merge', nargs=1, trusted='eckit: takes over the bytes of the other handle, or leaves it', ensures=mrg))

    def gi(c):
        ghost(c, 'minto', INTO)
        return []

    def post(c):
        A, B = c.this.handles, c.old.handles
        h = c.pre[0]
        i = c.fresh('i')
        into = S_(c.ex.st.ghost['minto'], h)
        kept = fa([i], z3.Implies(And(0 <= i, i < B.n), A[i] == B[i]))
        j = c.fresh('j')
        return [('one more field', c.this.count == c.old.count + 1),
                ('the parts before are kept in order', kept),
                ('appended, or merged into a part', Or(And(A.n == B.n + 1, A[B.n] == h), And(A.n == B.n, z3.Exists([j], And(0 <= j, j < B.n, into == B[j]))))),
                ('merged into the last part only, when order matters', z3.Implies(And(Not(c.old.sorted), A.n == B.n), And(B.n > 0, into == B[B.n - 1])))]
    R.add(Contract(H + 'add', nargs=1, src=S, modifies=('this',), ghosts=('minto',), requires=gi, throws=lambda c: [('no handle', c.pre[0] == 0)], ensures=post))
    R.add(Contract(H + 'count', nargs=0, src=S, value=lambda c: ('the number of fields', c.this.count)))


def register_list(R):
    """listing: which elements of the sequence found are given to the caller"""
    import toc, keys
    L = len(R.list)
    toc.register_list(R)
    SL = SRC[3:4]
    el = lambda: None

    def src(c):
        t = c.ex.world.recn('fdb5::ListElement').t
        so = c.ex.T.sort(t)
        f = z3.Function('element_found', INT, so)
        return (lambda k: V(c.ex, f(k), t)), z3.Int('elements_found')

    def gini(c):
        ghost(c, 'lpos', INT)
        return []

    def nxt(c):
        E, N = src(c)
        p = c.gold['lpos']
        c.ex.st.ghost['lpos'] = Ite(p < N, p + 1, p)
        return [('whether there is one', c.ret == (p < N)), ('the next one', z3.Implies(p < N, c.args[0].t == E(p).t))]
    R.add(Contract('fdb5::APIIterator::next', nargs=1, modifies=(0,), trusted='the elements found, one after the other', ensures=nxt))

    def kst(c, e, i):
        k = e.keyParts[i]
        return keys.join(c.ex, k)(keys.nm(k).t, keys.mp(k).arr, keys.nm(k).n)

    def seen(c, v, e):
        return toc.seen(v.seenKeys, kst(c, e, 0), kst(c, e, 1), kst(c, e, 2))

    def post(c):
        E, N = src(c)
        p0, p1 = c.gold['lpos'], c.ex.st.ghost['lpos']
        a, b, d = c.fresh('a', STR), c.fresh('b', STR), c.fresh('d', STR)
        q = c.fresh('q')
        m = c.old.mode
        last = E(p1 - 1)
        return [('nothing is left out in full mode', z3.Implies(m == 0, And(c.ret == (p0 < N), z3.Implies(c.ret, p1 == p0 + 1)))),
                ('the element is one of those found', z3.Implies(c.ret, And(p0 < p1, p1 <= N, c.args[0].t == last.t))),
                ('at the end all have been looked at', z3.Implies(Not(c.ret), p1 >= N)),
                ('it was not given before', z3.Implies(And(c.ret, m == 1), Not(seen(c, c.old, last)))),
                ('only repeated ones are left out', z3.Implies(m == 1, fa([q], z3.Implies(And(p0 <= q, q < Ite(c.ret, p1 - 1, N)), seen(c, c.old, E(q)))))),
                ('in the mode of duplicates only first ones are left out', z3.Implies(m == 2, fa([q], z3.Implies(And(p0 <= q, q < Ite(c.ret, p1 - 1, N)), Not(seen(c, c.old, E(q))))))),
                ('the mode is kept', c.this.mode == c.old.mode)]

    def tmpl(lp):
        c = _C(lp.ex)
        E, N = src(c)
        v = lambda st: lp.this_at(st)
        q = z3.Int('q_tm')
        a, b, d = z3.Const('a_tm', STR), z3.Const('b_tm', STR), z3.Const('d_tm', STR)
        p = lambda st: st.ghost['lpos']
        return [('position', lambda st: And(p(lp.entry) <= p(st), z3.Implies(p(st) > p(lp.entry), p(st) <= N))),
                ('mode', lambda st: v(st).mode == v(lp.entry).mode),
                ('full mode gives the first', lambda st: z3.Implies(v(st).mode == 0, p(st) == p(lp.entry))),
                ('those passed were given before', lambda st: z3.Implies(v(st).mode == 1, fa([q], z3.Implies(And(p(lp.entry) <= q, q < p(st)), seen(c, v(lp.entry), E(q)))))),
                ('those passed were new', lambda st: z3.Implies(v(st).mode == 2, fa([q], z3.Implies(And(p(lp.entry) <= q, q < p(st)), Not(seen(c, v(lp.entry), E(q))))))),
                ('what was seen stays seen', lambda st: fa([a, b, d], z3.Implies(toc.seen(v(lp.entry).seenKeys, a, b, d), toc.seen(v(st).seenKeys, a, b, d)))),
                ('what was given', lambda st: z3.Implies(v(st).mode == 1, fa([a, b, d], toc.seen(v(st).seenKeys, a, b, d) == toc.seen(v(lp.entry).seenKeys, a, b, d))))]
    R.add(Contract('fdb5::ListIterator::next', nargs=1, src=SL, modifies=('this', 0), ghosts=('lpos',), throws='any', requires=gini, tmpl=tmpl, ensures=post))
