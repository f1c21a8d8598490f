"""Contracts of control identifiers: which operations are disabled on a database."""
import z3
import recfun
from contract import Contract, V, pointed
from execu import And, Or, Not
from sorts import STR, INT, BOOL

SRC = ['src/fdb5/api/helpers/ControlIterator.cc']
N = 'fdb5::ControlIdentifiers::'
IT = 'fdb5::ControlIdentifierIterator::'
BITS = 16


def bv(c, t):
    return c.ex.tobv(t, BITS)


def scal(v):
    return v.field(lambda l, t: True) if isinstance(v, V) else v


ON = []


def on(c, w, ident):
    """no bit of the identifier is set: what it stands for is allowed"""
    ex = c.ex
    if not ON:
        ON.append(recfun.RecFun('ctl_on', [INT, INT], BOOL, lambda w, i: [ON[0](w, i) == (ex.tobv(w, 32) & ex.tobv(i, 32) == 0)]))
    return ON[0](w, ident)


def word(t):
    return And(t >= 0, t < 2 ** 16)


def register(R):
    R.add(Contract(N + '<ctor>', nargs=0, src=SRC, ctor=True, ensures=lambda c: [('nothing is disabled', scal(c.this) == 0)]))
    R.add(Contract(N + '<ctor>', nargs=1, sig='ControlIdentifier &', src=SRC, ctor=True, requires=lambda c: [('an identifier', word(c.pre[0]))], ensures=lambda c: [('the identifier', scal(c.this) == c.pre[0])]))
    R.add(Contract(N + 'operator|=', nargs=1, src=SRC, requires=lambda c: [('an identifier', word(c.pre[0]))], modifies=('this',), ensures=lambda c: [('the bits of both', bv(c, scal(c.this)) == bv(c, scal(c.old)) | bv(c, c.pre[0])), ('a word', word(scal(c.this))), ('the object itself', bv(c, scal(c.ret)) == bv(c, scal(c.this)))]))
    R.add(Contract(N + 'operator|', nargs=1, src=SRC, requires=lambda c: [('an identifier', word(c.pre[0]))], ensures=lambda c: [('the bits of both', bv(c, scal(c.ret)) == bv(c, scal(c.this)) | bv(c, c.args[0])), ('a word', word(scal(c.ret)))]))
    R.add(Contract('fdb5::operator|', nargs=2, src=SRC, requires=lambda c: [('identifiers', And(word(c.pre[0]), word(c.pre[1])))], ensures=lambda c: [('the bits of both', bv(c, scal(c.ret)) == bv(c, c.args[0]) | bv(c, c.args[1])), ('a word', word(scal(c.ret)))]))
    R.add(Contract(N + 'enabled', nargs=1, src=SRC, requires=lambda c: [('an identifier', word(c.pre[0]))], value=lambda c: ('no bit of the identifier is set', on(c, scal(c.this), c.args[0]))))

    # iteration: the bits one after the other, the lowest first
    iterate(R)


def b16(c, x):
    """the bits of a word of 16 bits, linked to its value as a number only where it is 0 or one of the identifiers"""
    if z3.is_int_value(x):
        return z3.BitVecVal(x.as_long(), BITS)
    W = z3.Function('word', INT, z3.BitVecSort(64))
    c.ex.axiom('single bits', lambda: [W(z3.IntVal(k)) == z3.BitVecVal(k, 64) for k in (0, 1, 2, 4, 8, 16)])
    return z3.Extract(BITS - 1, 0, W(x))


def iterate(R):
    Z, ONE = z3.BitVecVal(0, BITS), z3.BitVecVal(1, BITS)

    def valid(c, it):
        v, r = b16(c, it.value), b16(c, it.remaining)
        return Or(v == Z, And(v & (v - ONE) == Z, r & (v | (v - ONE)) == Z))

    def first(c, v, r, r0):
        """the lowest bit of r0 is v, the others are r (all zero when there is none)"""
        return And(v == r0 & -r0, r == r0 & (r0 - ONE))

    none = lambda it, w: z3.Implies(scal(w) == 0, And(it.value == 0, it.remaining == 0))
    nxt = lambda c: [('the next bit', first(c, b16(c, c.this.value), b16(c, c.this.remaining), b16(c, c.old.remaining))), ('a valid state', valid(c, c.this)), ('words', And(word(c.this.value), word(c.this.remaining)))]
    R.add(Contract(IT + 'nextValue', nargs=0, trusted='executed for every word of 16 bits by the bounded stand-in', requires=lambda c: [('a valid state', valid(c, c.this))], modifies=('this',), ensures=nxt))
    R.add(Contract(IT + 'operator++', nargs=0, src=SRC, requires=lambda c: [('a valid state', valid(c, c.this))], modifies=('this',), ensures=nxt))
    R.add(Contract(IT + 'operator*', nargs=0, src=SRC, value=lambda c: ('the bit', c.this.value)))
    R.add(Contract(IT + 'operator!=', nargs=1, src=SRC, value=lambda c: ('not at the same bit', c.this.value != c.args[0].value)))
    R.add(Contract(IT + 'operator==', nargs=1, src=SRC, value=lambda c: ('at the same bit', c.this.value == c.args[0].value)))
    R.add(Contract(IT + '<ctor>', nargs=1, sig='ControlIdentifiers', src=SRC, ctor=True, ensures=lambda c: [('the first bit', first(c, b16(c, c.this.value), b16(c, c.this.remaining), b16(c, scal(c.args[0])))), ('a valid state', valid(c, c.this)), ('words', And(word(c.this.value), word(c.this.remaining))), ('nothing, when there is no bit', none(c.this, c.args[0]))]))
    R.add(Contract(N + 'begin', nargs=0, src=SRC, ensures=lambda c: [('the first bit', first(c, b16(c, c.ret.value), b16(c, c.ret.remaining), b16(c, scal(c.this)))), ('a valid state', valid(c, c.ret)), ('words', And(word(c.ret.value), word(c.ret.remaining))), ('nothing, when there is no bit', none(c.ret, c.this))]))
    R.add(Contract(N + 'end', nargs=0, src=SRC, ensures=lambda c: [('no bit', And(c.ret.value == 0, c.ret.remaining == 0))]))
