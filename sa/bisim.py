"""Equality of terms of different interpretations, loops compared coinductively.

Joins, loop variables and loop exits of two runs are coloured by partition refinement: two
loop variables get the same colour when their entry values, back edge values and the
conditions of their loops are equal up to the colours of the loop variables inside.  Equal
colours after stabilisation mean that the two terms denote the same value.
"""
import re

from .terms import T, children, neg
from .interp import LOOPS

DIM = re.compile(r"^dim(\d+)_(\d+)$")
COMM = {"and", "or", "min", "max"}


def reach(terms):
    """All terms, loop variables and loops reachable from the given terms."""
    seen = set()
    phis, loops = {}, {}
    st = [t for t in terms if isinstance(t, T)]
    order = []
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        order.append(t)
        st.extend(children(t))
        if t.op in ("phi", "iter", "fin"):
            L = t.args[0]
            if L not in loops and L in LOOPS:
                loops[L] = LOOPS[L]
                i = LOOPS[L]
                st.extend(x for x in (i.cond, i.count) if isinstance(x, T))
                for e in i.exits:
                    st.extend(x for x in e if isinstance(x, T))
                if isinstance(i.back, T):
                    st.append(i.back)
            if t.op == "phi" and L in LOOPS and t in LOOPS[L].phis:
                phis[t] = LOOPS[L].phis[t]
                st.extend(phis[t])
    return phis, loops


class Colour:
    def __init__(self, terms, limit=60):
        self.phis, self.loops = reach(terms)
        self.c = {p: hash(("phi", len(p.shape or ()), p.args[3])) for p in self.phis}
        self.l = {k: hash(("loop",)) for k in self.loops}
        n = -1
        for _ in range(limit):
            self.memo = {}
            c2 = {p: hash((self.c[p], self.l.get(p.args[0]), self.h(a), self.h(b))) for p, (a, b) in self.phis.items()}
            l2 = {}
            for k, i in self.loops.items():
                l2[k] = hash((self.l[k], self.h(i.cond), self.h(i.count),
                              tuple(sorted(hash(tuple(self.h(x) for x in e if isinstance(x, (str, T)))) for e in i.exits)), self.h(i.back)))
            self.c, self.l = c2, l2
            m = len(set(c2.values())) + len(set(l2.values()))
            if m == n:
                break
            n = m
        self.memo = {}

    def h(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return hash(tuple(self.h(x) for x in t))
            if isinstance(t, int) and t in self.l:
                return hash(t)
            return hash(t)
        r = self.memo.get(t)
        if r is not None:
            return r
        # iterative to bound recursion
        st = [t]
        while st:
            a = st[-1]
            if a in self.memo:
                st.pop()
                continue
            todo = [c for c in self.kids(a) if c not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[a] = self.node(a)
            st.pop()
        return self.memo[t]

    def kids(self, a):
        if a.op in ("phi", "iter"):
            return []
        if a.op == "eq":
            return list(children(a)) + [neg(x) for x in a.args[:1] if isinstance(x, T)]
        out = list(children(a))
        if a.shape:
            out.extend(x for x in a.shape if isinstance(x, T))
        return out

    def node(self, a):
        m = self.memo
        if a.op == "phi":
            return self.c.get(a) or hash(("phi?", a.args[1]))
        if a.op == "iter":
            return hash(("iter", self.l.get(a.args[0])))
        if a.op == "sym":
            d = DIM.match(str(a.args[0]))
            if d:
                # a row count that varies over the iterations of a loop
                return hash(("dim", self.l.get(int(d.group(1))), d.group(2)))
        if a.op == "fin":
            return hash(("fin", self.l.get(a.args[0]), m[a.args[1]]))
        if a.op == "poly":
            return hash(("poly", frozenset((c, frozenset((m[x], e) for x, e in mono)) for c, mono in a.args)))
        if a.op == "eq" and len(a.args) == 1:
            return hash(("eq", frozenset((m[a.args[0]], m[neg(a.args[0])]))))
        if a.op in COMM:
            return hash((a.op, frozenset(m[x] for x in a.args)))
        return hash((a.op, self.args(a.args), tuple(m[x] if isinstance(x, T) else x for x in (a.shape or ()))))

    def args(self, xs):
        out = []
        for x in xs:
            if isinstance(x, T):
                out.append(self.memo[x] if x in self.memo else self.h(x))
            elif isinstance(x, tuple):
                out.append(self.args(x))
            elif isinstance(x, (str, int, float, bool)) or x is None:
                out.append(x)
            else:
                try:
                    out.append(hash(x))
                except TypeError:
                    out.append(repr(x))
        return hash(tuple(out))


def same(pairs):
    """For pairs of terms, the list of booleans of their equality."""
    ts = [x for p in pairs for x in p]
    C = Colour(ts)
    return [a is b or (isinstance(a, T) and isinstance(b, T) and C.h(a) == C.h(b)) for a, b in pairs]
