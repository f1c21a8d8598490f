"""All loaded translation units; resolution of records and functions across them."""
import os, json, glob
import cast, tu as tumod
from cast import norm
from sorts import Types, Unsupported


def untpl(n):
    """a class name without template arguments, as functions and members name it"""
    out, d = [], 0
    for ch in n:
        d += ch == '<'
        if not d:
            out.append(ch)
        d -= ch == '>'
    return ''.join(out)


class World:
    def __init__(self, tus):
        self.tus = {}
        self.funcs = {}
        self.byq = {}
        self.recs = {}
        self.enums = {}
        self.types = Types(self)
        self._index = None
        self._fields = {}
        self.loaded_on_demand = []
        for t in tus:
            self.load(t)

    def load(self, rel):
        if rel in self.tus:
            return self.tus[rel]
        src = os.path.join(tumod.REPO, rel)
        u = cast.TU(tumod.extract(src))
        self.tus[rel] = u
        for i, f in u.funcs.items():
            if i not in self.funcs:
                self.funcs[i] = f
                self.byq.setdefault(f.q, []).append(f)
        for n, r in u.recs.items():
            o = self.recs.get(n)
            if o is None or (not o.fields and r.fields):
                self.recs[n] = r
        for n, e in u.enums.items():
            self.enums[n] = e
        return u

    def index(self):
        """function id -> source, from the extraction made by setup (only used to find candidates on demand)"""
        if self._index is None:
            p = os.path.join(tumod.BUILD, 'funcindex.json')
            try:
                self._index = json.load(open(p))
            except Exception:
                self._index = {}
        return self._index

    def func(self, fid):
        f = self.funcs.get(fid)
        if f is not None:
            return f
        src = self.index().get(fid)
        if src and src not in self.tus and os.path.exists(os.path.join(tumod.REPO, src)):
            self.load(src)
            self.loaded_on_demand.append(src)
            return self.funcs.get(fid)
        return None

    def rec(self, t):
        return self.recs.get(t.s)

    def recn(self, name):
        return self.recs.get(name)

    def fields(self, t):
        """[(Class::field, type)] own fields after the inherited ones"""
        key = t.s
        if key in self._fields:
            return self._fields[key]
        r = self.recs.get(key)
        out = []
        if r is not None:
            for b in r.bases:
                rb = self.recs.get(b.s)
                if rb is None:
                    continue
                if rb.repo:
                    out += [x for x in self.fields(b) if x not in out]
            for n, ft, _ in r.fields:
                out.append((untpl(r.name) + '::' + n, ft))
        self._fields[key] = out
        return out

    def bases(self, name):
        """all (transitive) base class names of a record"""
        out, todo = [], [name]
        while todo:
            n = todo.pop()
            r = self.recs.get(n)
            if r is None:
                continue
            for b in r.bases:
                if b.s not in out:
                    out.append(b.s)
                    todo.append(b.s)
        return out

    def find(self, q, nargs=None, sig=None):
        fs = [f for f in self.byq.get(q, []) if (nargs is None or len(f.params) == nargs) and (sig is None or sig in f.id)]
        return fs


def build_index():
    """written by setup: which source defines which function id (non-header definitions first)"""
    idx = {}
    for meta in sorted(glob.glob(os.path.join(tumod.AST, '*.meta'))):
        m = json.load(open(meta))
        slug = os.path.basename(meta)[:-5]
        rel = slug.replace('__', '/')
        with open(m['out']) as fh:
            fh.readline(); fh.readline()
            for line in fh:
                o = json.loads(line)
                if 'f' in o:
                    i = norm(o['f']['id'])
                    own = o['loc'].split(':')[0].endswith(rel)
                    if own or i not in idx:
                        idx[i] = rel
    json.dump(idx, open(os.path.join(tumod.BUILD, 'funcindex.json'), 'w'))
    return len(idx)


if __name__ == '__main__':
    print(build_index(), 'functions indexed')
