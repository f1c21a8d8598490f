"""Recursively defined specification functions, unfolded at their ground occurrences when a query is made."""
import z3

_reg = {}


class RecFun:
    def __init__(self, name, sorts, ret, unfold):
        """unfold(*args) -> list of formulas that hold by definition"""
        self.decl = z3.Function(name, *(list(sorts) + [ret]))
        self.unfold = unfold
        _reg[self.decl.name()] = self

    def __call__(self, *a):
        return self.decl(*a)


_apps = {}


def apps(f):
    """ground applications of registered functions in f"""
    k = f.get_id()
    if k in _apps and _apps[k][0].eq(f):
        return _apps[k][1]
    out, seen, stack = [], set(), [(f, False)]
    while stack:
        x, _ = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append((x.body(), False))
            continue
        if z3.is_app(x):
            if x.decl().name() in _reg and not hasvar(x):
                out.append(x)
            for c in x.children():
                stack.append((c, False))
    _apps[k] = (f, out)
    return out


def hasvar(t, memo={}):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def instances(formulas, rounds=2, limit=60):
    """definitional instances for the occurrences in formulas (and, for a few rounds, in the instances themselves)"""
    if not _reg:
        return []
    done, out, keep = set(), [], []
    todo = list(formulas)
    for r in range(rounds):
        new = []
        for f in todo:
            for t in apps(f):
                key = z3.simplify(t); keep.append(key)
                if key.get_id() in done:
                    continue
                done.add(key.get_id())
                if len(done) > limit:
                    return out
                new += _reg[t.decl().name()].unfold(*t.children())
        out += new
        todo = new
        if not new:
            break
    return out


_sk = [0]


def prep(goal):
    """split a goal into [(premises, goal)]: conjunctions, implications and universal quantifiers opened"""
    out = []

    def go(prem, g):
        if z3.is_and(g):
            for c in g.children():
                go(prem, c)
        elif z3.is_implies(g):
            go(prem + [g.arg(0)], g.arg(1))
        elif z3.is_quantifier(g) and g.is_forall():
            vs = []
            for i in range(g.num_vars()):
                _sk[0] += 1
                vs.append(z3.Const('sk_%s_%d' % (g.var_name(i).split('?')[0], _sk[0]), g.var_sort(i)))
            go(prem, z3.substitute_vars(g.body(), *vs[::-1]))
        elif z3.is_or(g) and any(z3.is_quantifier(x) and x.is_forall() for x in g.children()):
            rest = [x for x in g.children() if not (z3.is_quantifier(x) and x.is_forall())]
            q = [x for x in g.children() if z3.is_quantifier(x) and x.is_forall()]
            if len(q) == 1:
                go(prem + [z3.Not(x) for x in rest], q[0])
            else:
                out.append((prem, g))
        else:
            out.append((prem, g))
    go([], goal)
    return out
