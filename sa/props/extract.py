"""Reading the update step of a loop out of its state equations."""
from .common import *
from .. import bisim


def leaves(t, path=()):
    """(conditions, value) of the branches of t."""
    if t.op == "ite":
        c = t.args[0]
        d = known(c, path)
        if d is not None:
            return leaves(t.args[1] if d else t.args[2], path)
        return leaves(t.args[1], path + tuple(conj(c))) + leaves(t.args[2], path + tuple(conj(bnot(c))))
    return [(path, t)]


def known(c, path):
    """Truth of c when the literals of path hold, as far as it is a matter of propositions."""
    if not path:
        return None
    P = set(path)
    for x in path:
        if x.op == "or":
            # unit resolution
            left = [y for y in x.args if bnot(y) not in P]
            if len(left) == 1:
                P.add(left[0])
    if c in P or all(l in P for l in conj(c)):
        return True
    if bnot(c) in P or any(bnot(l) in P for l in conj(c)):
        return False
    if c.op == "or":
        if any(l in P for l in c.args):
            return True
        if all(bnot(l) in P for l in c.args):
            return False
    if c.op == "and" and any(bnot(l) in P for l in c.args):
        return False
    return None


def given(t, path):
    """t simplified under the literals of path."""
    path = tuple(path)
    for _ in range(6):
        m = {}
        for n in nodes(t):
            if n.op == "ite":
                d = known(n.args[0], path)
                if d is not None:
                    m[n] = n.args[1] if d else n.args[2]
                elif path and n.args[0].op in ("and", "or"):
                    c = reduced(n.args[0], path)
                    if c is not n.args[0]:
                        m[n] = ite(c, n.args[1], n.args[2])
        if not m:
            return t
        u = subst(t, m)
        if u is t:
            return t
        t = u
    return t


def reduced(c, path):
    """c under the literals of path, known parts left out."""
    d = known(c, path)
    if d is not None:
        return TRUE if d else FALSE
    if c.op in ("and", "or"):
        l = [reduced(x, path) for x in c.args]
        return band(*l) if c.op == "and" else bor(*l)
    return c


def conj(c):
    return list(c.args) if c.op == "and" else [c]


def cond_of(ls, keep):
    """Condition under which the value is one that keep() accepts."""
    return bor(*[band(*c) if c else TRUE for c, v in ls if keep(v)]) if any(keep(v) for c, v in ls) else FALSE


def loops_reached(terms):
    phis, loops = bisim.reach(terms)
    return loops


def stores(t, base):
    """Leading-axis indices stored into base along all branches of t (None: not of that form)."""
    out = []
    st = [t]
    while st:
        a = st.pop()
        if a is base:
            continue
        if a.op == "ite":
            st.extend(a.args[1:])
        elif a.op == "sto" and a.args[1] == 0:
            if a.args[2] not in out:
                out.append(a.args[2])
            st.append(a.args[0])
        elif a.op == "fin":
            # carried by an inner loop
            return None
        else:
            return None
    return out


class Step:
    """One writing step of a table indexed by the iteration."""

    def __init__(self, L, p):
        self.L, self.p = L, p
        self.init, self.next = L.phis[p]
        ix = stores(self.next, p)
        if not ix:
            raise LookupError
        # several candidates: keep the one written on every branch
        good = [i for i in ix if all(i in (stores(v, p) or ()) for c, v in leaves(self.next))] if len(ix) > 1 else ix
        if len(good) != 1:
            raise LookupError
        self.idx = good[0]
        self.value = at(self.next, 0, self.idx)
        self.before = at(p, 0, sub(self.idx, ONE))


def steps(r, t):
    """Writing steps of the table t (a result field) over the loops it goes through."""
    out = []
    for lid, L in sorted(loops_reached([t]).items()):
        for p, (i, n) in L.phis.items():
            if p.shape is None or t.shape is None or len(p.shape) != len(t.shape) or not p.shape:
                continue
            try:
                s = Step(L, p)
            except LookupError:
                continue
            if p.shape[1:] == t.shape[1:]:
                out.append(s)
    return out


def aliases(L, tables):
    """Variables of L that carry the entry last written to a table."""
    m = {}
    for p, (i, n) in L.phis.items():
        for s in tables:
            if p is not s.p and p.shape == s.value.shape and n is s.value:
                m[p] = s.before
    return m


def at_exit(L, t):
    """t in the pass of L that is interrupted: over the values at the exit."""
    m = {p: fin(L.id, p) for p in L.phis}
    m[iterk(L.id)] = fin(L.id, iterk(L.id))
    return subst(t, m)


def left(L, p, value):
    """Value of the variable p after the loop, when a pass makes it value: an interrupted pass counts."""
    br = [e[1] for e in L.exits if e[0] == "break"]
    if not br:
        return fin(L.id, p)
    return ite(at_exit(L, bor(*br)), at_exit(L, value), fin(L.id, p))
