"""C++ types -> z3 sorts, and structural accessors on terms."""
import z3, re
from cast import Ty

INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
STR = z3.DeclareSort('Str')
U64 = 2 ** 64


class Unsupported(Exception):
    """a construct outside the verifier's subset"""
    pass


def mangle(s):
    return re.sub(r'[^A-Za-z0-9_]+', '_', s)


_dt = {}       # key -> datatype info
_opaque = {}
_names = {}


def _uname(base):
    b = mangle(base)[:60]
    n = _names.get(b, 0)
    _names[b] = n + 1
    return b if n == 0 else '%s_%d' % (b, n)


class DT:
    """a single-constructor datatype with named fields"""

    def __init__(self, key, fields):
        self.key = key
        self.fields = [f[0] for f in fields]
        self.ftys = [f[2] if len(f) > 2 else None for f in fields]
        nm = _uname(key)
        d = z3.Datatype(nm)
        d.declare('mk_' + nm, *[('%s_%d_%s' % (nm, i, mangle(f[0])[-30:]), f[1]) for i, f in enumerate(fields)])
        self.sort = d.create()
        self.mk = self.sort.constructor(0)
        self.acc = [self.sort.accessor(0, i) for i in range(len(fields))]
        self.idx = {f: i for i, f in enumerate(self.fields)}
        self.fsorts = [f[1] for f in fields]

    def get(self, t, i):
        if z3.is_app(t):
            d = t.decl()
            if d.eq(self.mk):
                return t.arg(i)
            if d.kind() == z3.Z3_OP_ITE:
                a, b = t.arg(1), t.arg(2)
                # push accessors through ite when a branch is a constructor application
                if _isctor(a) or _isctor(b):
                    x, y = self.get(a, i), self.get(b, i)
                    return x if x.eq(y) else z3.If(t.arg(0), x, y)
        return self.acc[i](t)

    def set(self, t, i, v):
        return self.mk(*[v if j == i else self.get(t, j) for j in range(len(self.fields))])

    def make(self, *a):
        return self.mk(*a)


def _isctor(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR


_bysort = {}


def dt_of(term_or_sort):
    s = term_or_sort.sort() if isinstance(term_or_sort, z3.ExprRef) else term_or_sort
    return _bysort.get(s.name() if s.kind() == z3.Z3_DATATYPE_SORT else None)


def mkdt(key, fields):
    if key not in _dt:
        d = DT(key, fields)
        _dt[key] = d
        _bysort[d.sort.name()] = d
    return _dt[key]


def seq_dt(es):
    return mkdt('Seq<%s>' % es.name() if es.kind() != z3.Z3_ARRAY_SORT else 'Seq<%s>' % es.sexpr(), [('len', INT), ('arr', z3.ArraySort(INT, es))])


def set_dt(ks):
    return mkdt('Set<%s>' % ks.name(), [('has', z3.ArraySort(ks, BOOL))])


def map_dt(ks, vs):
    return mkdt('Map<%s,%s>' % (ks.name(), vs.name()), [('has', z3.ArraySort(ks, BOOL)), ('val', z3.ArraySort(ks, vs))])


def tup_dt(ss):
    return mkdt('Tup<%s>' % ','.join(s.name() for s in ss), [('t%d' % i, s) for i, s in enumerate(ss)])


def opt_dt(s):
    return mkdt('Opt<%s>' % s.name(), [('has', BOOL), ('val', s)])


def var_dt(ss):
    """variant: an index plus one slot per alternative"""
    return mkdt('Var<%s>' % ','.join(s.name() for s in ss), [('idx', INT)] + [('v%d' % i, s) for i, s in enumerate(ss)])


def opaque(name):
    if name not in _opaque:
        _opaque[name] = z3.DeclareSort(_uname('o_' + name))
    return _opaque[name]


UNIT = opaque('unit')

SEQ = {'std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::array', 'std::forward_list', 'std::queue', 'std::stack'}
SETS = {'std::set', 'std::unordered_set', 'eckit::DenseSet'}
MAPS = {'std::map', 'std::unordered_map'}
PTRS = {'std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr'}
STRS = {'std::string', 'std::string_view', 'std::basic_string', 'std::basic_string_view'}
INTLIKE = {'eckit::Length', 'eckit::Offset'}
STREAMSTR = {'std::basic_ostringstream', 'std::basic_stringstream', 'std::ostringstream', 'std::stringstream'}


ADDR = []      # set by a contract module: pointers to mutable char are addresses, not strings


class Types:
    """needs a resolver for records: name -> cast.Rec"""

    def __init__(self, world):
        self.world = world
        self._rec = {}
        self._busy = set()

    def kind(self, t):
        """classify: int bool float str seq set map tup opt var ptr rec opaque fn ref void"""
        k = t.k
        if k == 'ref':
            return 'ref'
        if k in ('int', 'bool', 'float', 'void'):
            return k
        if k == 'enum':
            return 'int'
        if k == 'nullptr':
            return 'ptr'
        if k == 'ptr':
            if t.to.k == 'int' and t.to.char:
                return 'int' if ADDR and not t.to.const else 'str'
            return 'ptr'
        if k == 'arr':
            if t.of.k == 'int' and t.of.char:
                return 'str'
            return 'seq'
        if k == 'rec':
            n = t.tname
            if t.s in STRS or n in STRS or n in STREAMSTR:
                return 'str'
            if n in SEQ:
                return 'seq'
            if n in SETS:
                return 'set'
            if n in MAPS:
                return 'map'
            if n in ('std::pair', 'std::tuple'):
                return 'tup'
            if n == 'std::optional':
                return 'opt'
            if n == 'std::variant':
                return 'var'
            if n in PTRS:
                return 'ptr'
            if n == 'std::reference_wrapper':
                return 'ptr' if t.strip() is t else self.kind(t.strip())
            if n in INTLIKE:
                return 'int'
            if n == 'std::atomic' and t.args and self.kind(t.args[0]) in ('int', 'bool'):
                return self.kind(t.args[0])
            r = self.world.rec(t)
            if r is not None and r.repo and not t.lam:
                return 'rec'
            return 'opaque'
        if k == 'fn':
            return 'fn'
        return 'opaque'

    def sort(self, t):
        t = t.strip()
        k = self.kind(t)
        if k == 'ref':
            return self.sort(t.to)
        if k == 'int':
            return INT
        if k == 'bool':
            return BOOL
        if k == 'float':
            return REAL
        if k == 'str':
            return STR
        if k == 'ptr':
            return INT
        if k == 'seq':
            return seq_dt(self.sort(self.elem(t))).sort
        if k == 'set':
            return set_dt(self.sort(t.args[0])).sort
        if k == 'map':
            return map_dt(self.sort(t.args[0]), self.sort(t.args[1])).sort
        if k == 'tup':
            return tup_dt([self.sort(a) for a in t.args]).sort
        if k == 'opt':
            return opt_dt(self.sort(t.args[0])).sort
        if k == 'var':
            return var_dt([self.sort(a) for a in t.args]).sort
        if k == 'rec':
            return self.rec(t).sort
        if k == 'void':
            return UNIT
        return opaque(t.s)

    def elem(self, t):
        if t.k == 'arr':
            return t.of
        return t.args[0]

    def rec(self, t):
        """datatype of a repository record: own and inherited fields, labelled Class::field"""
        key = t.s
        if key in self._rec:
            return self._rec[key]
        if key in self._busy:
            raise Unsupported('recursive value type ' + key)
        self._busy.add(key)
        try:
            fs = []
            for lab, ft in self.world.fields(t):
                fs.append((lab, self.sort(ft), ft))
            d = mkdt('R<%s>' % key, fs)
            d.ftys = [f[2] for f in fs]
            self._rec[key] = d
            return d
        finally:
            self._busy.discard(key)
