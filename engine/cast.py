"""Loading of the extractor's output: types, records, functions (see tools/extract/extract.cc)."""
import json, re, os

_ABBR = [
    (re.compile(r'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'), 'std::string'),
    (re.compile(r'std::basic_string<char>'), 'std::string'),
    (re.compile(r'std::basic_string_view<char, std::char_traits<char>>'), 'std::string_view'),
    (re.compile(r'std::basic_string_view<char>'), 'std::string_view'),
    (re.compile(r'std::basic_ostream<char, std::char_traits<char>>'), 'std::ostream'),
    (re.compile(r'std::basic_ostream<char>'), 'std::ostream'),
    (re.compile(r'std::basic_istream<char, std::char_traits<char>>'), 'std::istream'),
]


def _strip_arg(s, names):
    """remove ', <name><...>' template arguments with balanced brackets"""
    for n in names:
        pat = ', ' + n + '<'
        while True:
            p = s.find(pat)
            if p < 0:
                break
            d, q = 0, p + len(pat) - 1
            while q < len(s):
                if s[q] == '<':
                    d += 1
                elif s[q] == '>':
                    d -= 1
                    if d == 0:
                        break
                q += 1
            s = s[:p] + s[q + 1:]
    return s


def norm(s):
    for r, t in _ABBR:
        s = r.sub(t, s)
    s = _strip_arg(s, ['std::allocator', 'std::less', 'std::hash', 'std::equal_to', 'std::default_delete'])
    for r, t in _ABBR:
        s = r.sub(t, s)
    return s


class Ty:
    __slots__ = ('k', 's', 'const', 'to', 'of', 'n', 'name', 'args', 'bits', 'signed', 'char', 'rv', 'lam', 'under', '_key')

    def __repr__(self):
        return ('const ' if self.const else '') + self.s

    def strip(self):
        """remove references"""
        t = self
        while True:
            if t.k == 'ref':
                t = t.to
            elif t.k == 'rec' and t.args and t.tname == 'std::reference_wrapper' and t.args[0].const:
                t = t.args[0]           # a wrapped const reference is its value
            else:
                return t

    @property
    def tname(self):
        """template name of a record, without arguments"""
        n = self.name or ''
        p = n.find('<')
        return n if p < 0 else n[:p]


_INTERN = {}


class TU:
    """one extracted translation unit"""

    def __init__(self, path):
        self.path = path
        self.funcs = {}      # normalised id -> Func
        self.recs = {}       # canonical record name -> Rec
        self.enums = {}
        self.types = []
        with open(path) as fh:
            first = json.loads(fh.readline())
            self.deps = first['deps']
            self.errors = first['errors']
            self._rawtypes = json.loads(fh.readline())['types']
            self._ty = [None] * len(self._rawtypes)
            for line in fh:
                o = json.loads(line)
                if 'enum' in o:
                    self.enums[o['enum']] = {k: int(v) for k, v in o['vals']}
                elif 'rec' in o:
                    t = self.ty(o['rec'])
                    self.recs[t.s] = Rec(self, t, o)
                else:
                    f = Func(self, o)
                    self.funcs[f.id] = f

    def ty(self, i):
        t = self._ty[i]
        if t is None:
            r = self._rawtypes[i]
            t = Ty()
            self._ty[i] = t
            t.k = r['k']
            t.s = norm(r['s'])
            t.const = r.get('const', False)
            t.to = self.ty(r['to']) if 'to' in r else None
            t.of = self.ty(r['of']) if 'of' in r else None
            t.n = r.get('n')
            t.name = norm(r['name']) if 'name' in r else None
            t.bits = r.get('bits', 64)
            t.signed = r.get('signed', False)
            t.char = r.get('char', False)
            t.rv = r.get('rv', False)
            t.lam = r.get('lambda', False)
            t.under = self.ty(r['under']) if 'under' in r else None
            t.args = [self.ty(a) if isinstance(a, int) else a for a in r.get('args', [])]
            if t.lam:
                t.s = t.s + '@' + os.path.basename(self.path)
            elif t.k == 'rec' and t.args and t.tname.startswith('std::'):
                pass
        return t


class Rec:
    def __init__(self, tu, t, o):
        self.tu, self.t, self.o = tu, t, o
        self.name = norm(o['name'])
        self.repo = o.get('repo', False)
        self.poly = o.get('poly', False)
        self.bases = [tu.ty(b) for b in o.get('bases', [])]
        self.fields = [(f['name'], tu.ty(f['t']), f.get('init')) for f in o.get('fields', [])]
        self.virt = [dict(id=norm(v['id']), pure=v['pure'], name=v['name'], over=[norm(x) for x in v['over']]) for v in o.get('virt', [])]
        self.size = o.get('size')
        self.offs = o.get('offs')


class FI:
    """function info attached to a call or a definition"""
    __slots__ = ('tu', 'o', 'q', 'id', 'cls', '_pt', '_rt')

    def __init__(self, tu, o):
        self.tu, self.o = tu, o
        self.q = norm(o['q'])
        self.id = norm(o['id'])
        self.cls = norm(o['cls']) if 'cls' in o else None
        self._pt = self._rt = None

    @property
    def pt(self):
        if self._pt is None:
            self._pt = [self.tu.ty(i) for i in self.o['pt']]
        return self._pt

    @property
    def rt(self):
        if self._rt is None:
            self._rt = self.tu.ty(self.o['rt'])
        return self._rt

    def get(self, k, d=None):
        return self.o.get(k, d)

    @property
    def const(self):
        return self.o.get('const', False)

    @property
    def static(self):
        return self.o.get('static', False)

    @property
    def virtual(self):
        return self.o.get('virtual', False)

    @property
    def repo(self):
        return self.o.get('repo', False)

    @property
    def name(self):
        return self.q.rsplit('::', 1)[-1]


class Func:
    def __init__(self, tu, o):
        self.tu, self.o = tu, o
        self.f = FI(tu, o['f'])
        self.id = self.f.id
        self.q = self.f.q
        self.loc = o['loc']
        self.params = o['params']
        self.body = o['body']
        self.inits = o.get('inits')


def finfo(tu, o):
    """cached FI for a call's callee record"""
    fi = o.get('_fi')
    if fi is None:
        fi = FI(tu, o)
        o['_fi'] = fi
    return fi
