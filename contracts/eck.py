"""Trusted models of eckit's value types that specifications talk about."""
import z3
import lib
from contract import Contract
from sorts import mangle, STR, opaque


def uf(c, name, t, sort):
    return z3.Function('spec_' + mangle(name), t.sort(), sort)(t)


def raw(x):
    return x.t if hasattr(x, 't') else x


def path(ex_sort, uri):
    return z3.Function('spec_URI_path', uri.sort(), ex_sort)(uri)


def asPath(s, sort):
    """the path written as a string"""
    return z3.Function('spec_PathName', STR, sort)(s)


def pname():
    return opaque('eckit::PathName')


def uri():
    return opaque('eckit::URI')


def mkuri(scheme, p, sort=None):
    return z3.Function('spec_URI', STR, pname(), uri())(scheme, p)


def pstr(p):
    return z3.Function('spec_pathstr', p.sort(), STR)(p)


def dirof(p):
    return z3.Function('spec_dirName', pname(), pname())(p)


def same(p, q):
    return z3.Function('spec_sameAs', pname(), pname(), z3.BoolSort())(p, q)


def local(p):
    return z3.Function('spec_localpath', p.sort(), pname())(p)


def uri_axioms(ex):
    s, p = z3.Const('ua_s', STR), z3.Const('ua_p', pname())
    ex.axiom('eck uri', lambda: [z3.ForAll([s, p], path(pname(), mkuri(s, p)) == p, patterns=[mkuri(s, p)])])


def make_uri(ex, args):
    if len(args) == 2 and hasattr(args[0], 'sort') and args[0].sort() == STR and hasattr(args[1], 'sort'):
        p = asPath(args[1], pname()) if args[1].sort() == STR else args[1]
        if p.sort() == pname():
            uri_axioms(ex)
            return mkuri(args[0], p)
    return None


lib.OPAQUE_CTORS['eckit::URI'] = make_uri


def register(R):
    E = 'eckit: '
    R.add(Contract('eckit::URI::<ctor>', nargs=2, sig='PathName', trusted=E + 'a URI made of a scheme and a path has that path', ctor=True, value=lambda c: (uri_axioms(c.ex), mkuri(raw(c.args[0]), raw(c.args[1])))))
    R.add(Contract('eckit::URI::path', nargs=0, trusted=E + 'the path of a URI', value=lambda c: (uri_axioms(c.ex), path(pname(), raw(c.this)))))
    R.add(Contract('eckit::PathName::<ctor>', nargs=2, sig='const std::string &, bool', trusted=E + 'the path written as a string', ctor=True, value=lambda c: ('', asPath(raw(c.args[0]), pname()))))
    R.add(Contract('eckit::PathName::dirName', nargs=0, trusted=E + 'the directory of a path', value=lambda c: ('', dirof(raw(c.this)))))
    R.add(Contract('eckit::PathName::sameAs', nargs=1, trusted=E + 'whether two paths are the same file', value=lambda c: ('', same(raw(c.this), raw(c.args[0])))))
    R.add(Contract('eckit::PathName::<ctor>', nargs=1, sig='LocalPathName', trusted=E + 'a local path', ctor=True, value=lambda c: ('', local(raw(c.args[0])))))
    R.add(Contract('eckit::PathName::<conv>', nargs=0, trusted=E + 'the string of a path', value=lambda c: ('', pstr(raw(c.this)))))
