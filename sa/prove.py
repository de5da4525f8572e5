"""Decision of statements about value terms: joins and loop summaries are descended.

A statement about gated terms is decided the way a dataflow fact is: at a join (`ite`)
it must hold for both operands under the condition of the edge, at a loop (`phi`) it must
hold for the value entering the loop and be preserved by the value on the back edge, where
it may be used itself (and other statements under decision) as the incoming fact.
Comparisons are decided from intervals, signs and known comparisons (order.py).  Nothing
is executed and no solver is involved; a statement that is not established is reported
with the operand that does not satisfy it.
"""
from collections import namedtuple
from itertools import chain as chain_

from . import terms as tm
from .order import Facts, NOFACTS, decide, facts, le0, refuted
from .terms import *
from .interp import LOOPS

Goal = namedtuple("Goal", "kind terms")
Hyp = namedtuple("Hyp", "goal vars guards")


ORDERS = None


class OutOfBudget(Exception):
    pass


def pt(F, X, fun=None, extras=None):
    return Goal("pt", (F, X))


def eqg(a, b):
    return Goal("eq", (a, b))


def leg(a, b):
    return Goal("le", (a, b))


def true(c):
    return Goal("true", (c,))


def show_goal(g, d=4):
    s = [show(t, d) for t in g.terms]
    if g.kind == "pt":
        return "%s is the objective value %s" % (s[0], s[1])
    if g.kind == "eq":
        return "%s equals %s" % (s[0], s[1])
    if g.kind == "le":
        return "%s <= %s" % (s[0], s[1])
    return s[0]


# ---------------------------------------------------------------- helpers
def gnodes(g):
    seen = set()
    for t in g.terms:
        for n in nodes(t):
            if n not in seen:
                seen.add(n)
                yield n


_free_cache = {}


def free_loops(t):
    """Loops whose phi, counter or exit value occurs in t (not below another loop's exit)."""
    r = _free_cache.get(t)
    if r is None:
        if t.op == "fin":
            r = frozenset([t.args[0]])
        elif t.op in ("phi", "iter"):
            r = frozenset([t.args[0]])
        else:
            r = frozenset()
            for c in children(t):
                r = r | free_loops(c)
        _free_cache[t] = r
    return r


def fins(t, L, out):
    seen = set()
    st = [t]
    while st:
        a = st.pop()
        if a in seen or L not in free_loops(a):
            continue
        seen.add(a)
        if a.op == "fin":
            if a.args[0] == L:
                out[a] = a.args[1]
            continue
        st.extend(children(a))
    return out


def indices(t, out=None):
    """Terms used as scalar indices."""
    out = {} if out is None else out
    for n in nodes(t):
        if n.op == "at":
            out.setdefault(n.args[2], []).append(n)
    return out


def is_var(t):
    return t.op == "fresh"


def lit_of(c, F):
    """An undecided atomic condition inside c."""
    if c is TRUE or c is FALSE:
        return None
    if c.op in ("and", "or"):
        for a in c.args:
            l = lit_of(a, F)
            if l is not None:
                return l
        return None
    if c.op == "not":
        return lit_of(c.args[0], F)
    if c.op == "ite" and c.shape == ():
        for a in c.args:
            l = lit_of(a, F)
            if l is not None:
                return l
        return None
    if decide(c, F) is not None:
        return None
    if c.op in ("eq", "le", "lt") and is_int(c.args[0]):
        i = find_ite(c.args[0], F)
        l = lit_of(i.args[0], F) if i is not None else None
        if l is not None:
            return l
    return c


def bounded_ops(op):
    return op in ("poly", "fn", "min", "at", "slc", "expand", "full", "obj", "isnone", "eq", "lt", "le", "not", "and", "or",
                  "eqv", "tr", "take", "sto", "box")


def find_ite(t, F, seen=None, depth=40):
    """An exposed conditional with a scalar condition."""
    seen = set() if seen is None else seen
    if t in seen or depth <= 0:
        return None
    seen.add(t)
    if t.op == "ite" and t.args[0].shape == ():
        return t
    if t.op == "ite":
        for c in t.args:
            r = find_ite(c, F, seen, depth - 1)
            if r is not None:
                return r
        return None
    if not bounded_ops(t.op):
        return None
    for c in children(t):
        r = find_ite(c, F, seen, depth - 1)
        if r is not None:
            return r
    return None


class Prover:
    # further rules for order goals, given by a check
    tactics = ()
    # whether statements about loop variables are established by induction
    induction = True

    def __init__(self, axioms=(), budget=30000, maxtime=None):
        self.axioms = tuple(axioms)
        self.budget = budget
        self.steps = 0
        self.cache = {}
        self.fail = None
        self.nob = 0
        self.loops = set()
        self.guard_vars = ()
        self.lemma_depth = 0
        # order relations between integer loop variables (intinv)
        self.ints = {}
        # entries of tables that are the value of a loop variable (intinv.values)
        self.rw = {}
        # statements established for the passes of a loop, with the facts and hypotheses these rest on
        self.kept = {}

    def known(self, *terms):
        """The relations of the loops that occur in the terms."""
        if not self.ints:
            return []
        from .intinv import at_exit

        inn, ex = set(), set()
        for t in terms:
            for n in nodes(t):
                if n.op == "fin":
                    ex.add(n.args[0])
                elif n.op in ("phi", "iter"):
                    inn.add(n.args[0])
        out = [c for l in sorted(inn) for c in self.ints.get(l, ())]
        return out + [at_exit(l, c) for l in sorted(ex) for c in self.ints.get(l, ())]

    # ------------------------------------------------------------ entry
    def prove(self, goal, F=None, hyps=()):
        """Whether the goal certainly holds; records the failing operand otherwise."""
        F = facts(list(F.lits) if isinstance(F, Facts) else list(F or ()))
        if self.axioms:
            F = F.plus(*self.axioms)
        if self.ints:
            F = F.plus(*self.known(*goal.terms))
        total = 0
        for order, budget in ORDERS or (("inv", 1000), ("peel", 2000), ("inv", self.budget)):
            self.order = order
            self.limit = budget
            self.steps = 0
            self.out = False
            self.failed = {}
            self.fail = None
            self.lemma_depth = 0
            try:
                if self.solve(goal, F, tuple(hyps), 0, frozenset()):
                    self.steps += total
                    return True
                if order == "inv":
                    break
            except OutOfBudget:
                self.out = True
                self.note(goal, F, "search budget exceeded")
            total += self.steps
        self.steps += total
        return False

    def exhausted(self):
        return self.out

    def note(self, goal, F, why=""):
        if self.fail is None:
            self.fail = (goal, F, why)

    def failure(self):
        if self.fail is None:
            return "?"
        g, F, why = self.fail
        src = None
        for t in g.terms:
            for n in nodes(t)[:50]:
                if n.src:
                    src = n.src
                    break
            if src:
                break
        conds = "; ".join(show(c, 3)[:110] for c in list(F.lits)[-6:])
        return "%s: cannot establish that %s [when %s]%s" % (
            ("%s:%s (%s)" % src[:3]) if src else "?", show_goal(g, 4)[:400], conds[:600], (" " + why) if why else "")

    # ------------------------------------------------------------ search
    def simp(self, t, F):
        """Resolve exposed conditionals decided by the facts."""
        for _ in range(60):
            i = self.decided_ite(t, F)
            if i is None:
                return t
            x, v = i
            t = subst(t, {x: v})
        return t

    def decided_ite(self, t, F):
        seen = set()
        st = [(t, 0)]
        while st:
            a, d = st.pop()
            if a in seen or d > 40:
                continue
            seen.add(a)
            if a.op == "ite" and a.args[0].shape == ():
                r = decide(a.args[0], F)
                if r is True:
                    return a, a.args[1]
                if r is False:
                    return a, a.args[2]
                # branches are looked at after the split
                continue
            if a.op == "min" and a.shape == ():
                k = self.min_under(a, F)
                if k is not a:
                    return a, k
            if a.op == "ite" or bounded_ops(a.op):
                st.extend((c, d + 1) for c in children(a))
        return None

    def solve(self, goal, F, H, depth, seen):
        self.steps += 1
        if self.steps > self.limit:
            raise OutOfBudget()
        terms = tuple(self.simp(t, F) for t in goal.terms)
        if self.rw:
            terms = tuple(subst(t, self.rw) for t in terms)
        goal = Goal(goal.kind, terms)
        if depth > 60:
            self.note(goal, F, "nesting")
            return False
        key = (goal, F.key, H)
        if key in self.cache:
            return True
        # failures are relative to what is under decision already
        fkey = (key, seen, self.lemma_depth)
        if fkey in self.failed:
            return False
        r = getattr(self, "do_" + goal.kind)(goal, F, H, depth, seen)
        if r:
            self.cache[key] = True
        else:
            self.failed[fkey] = True
        return r

    def split(self, goal, c, F, H, depth, seen):
        """Both edges of a condition."""
        l = lit_of(c, F)
        if l is None:
            # compound condition decided only through its parts
            d = decide(c, F)
            if d is None:
                l = c
            else:
                return self.solve(goal, F, H, depth + 1, seen)
        for lit in (l, bnot(l)):
            g2, F2 = goal, F.plus(lit)
            m = index_eq(lit)
            if m:
                g2 = Goal(goal.kind, tuple(subst(t, m) for t in goal.terms))
                F2 = facts([subst(x, m) for x in F.lits])
            if F2.key != F.key and FALSE in F2.lits:
                continue
            gated = [x for x in F2.lits if x.op in ("eq", "le", "lt") and self.decided_ite(x, F2) is not None]
            if gated:
                F2 = facts([self.simp(x, F2) if x in gated else x for x in F2.lits])
                if FALSE in F2.lits:
                    continue
            if not self.solve(g2, F2, H, depth + 1, seen):
                if F2.contradictory:
                    continue
                return False
        return True

    # ------------------------------------------------------------ objective values
    def do_pt(self, goal, F, H, depth, seen):
        f, o = goal.terms
        if f is o or f is INF:
            return True
        am = [n for n in gnodes(goal) if n.op == "argmin"]
        am = [n for n in am if not free_bvs(n) and not any(n is not k and depends(k, n) for k in am)]
        if am:
            # which row it is does not matter
            m = {n: fresh("j") for n in am}
            return self.solve(Goal("pt", tuple(subst(t, m) for t in goal.terms)), facts([subst(c, m) for c in F.lits]),
                              H, depth + 1, seen)
        if f.op == "ite":
            return self.split(goal, f.args[0], F, H, depth, seen)
        if f.op == "min":
            return self.split_min(goal, f, F, H, depth, seen)
        if o.op == "obj" and f.op == "obj" and same_call(f, o):
            if self.do_eq(Goal("eq", (f.args[1], o.args[1])), F, H, depth + 1, seen):
                return True
        i = find_ite(o, F)
        if i is not None:
            return self.split(goal, i.args[0], F, H, depth, seen)
        i = find_ite(f, F)
        if i is not None and f.op != "obj":
            return self.split(goal, i.args[0], F, H, depth, seen)
        if decide(eq(f, o), F) is True:
            return True
        if self.by_hyp(goal, F, H):
            return True
        return self.induct(goal, F, H, depth, seen)

    def split_min(self, goal, m, F, H, depth, seen):
        a, b = m.args[0], m.args[1]
        if le(a, b) in F.lits or lt(b, a) in F.lits:
            pass
        elif self.compared(goal, a, b):
            # where they are equal, the one that the conditionals of the goal go by
            a, b = b, a
        d = decide(le(a, b), F)
        if d is None:
            return self.split(goal, le(a, b), F, H, depth, seen)
        keep = [x for x in m.args if x is not (b if d else a)]
        return self.solve(Goal(goal.kind, tuple(subst(t, {m: min_(*keep)}) for t in goal.terms)), F, H, depth + 1, seen)

    def compared(self, goal, a, b):
        """Conditionals of the goal take the side of a only below b."""
        c = lt(a, b)
        n = bnot(c)
        return c.op == "lt" and any(x.op == "ite" and (x.args[0] is c or x.args[0] is n) for x in gnodes(goal))

    def min_under(self, m, F):
        keep = list(m.args)
        for x in list(keep):
            for y in keep:
                if y is not x and decide(le(y, x), F) is True:
                    keep.remove(x)
                    break
        return min_(*keep) if len(keep) < len(m.args) else m

    # ------------------------------------------------------------ equality
    def do_eq(self, goal, F, H, depth, seen):
        a, b = goal.terms
        if a is b:
            return True
        for t in (a, b):
            if t.op == "ite" and t.args[0].shape == ():
                return self.split(goal, t.args[0], F, H, depth, seen)
        if a.shape == () and b.shape == ():
            if is_numeric(a) and is_numeric(b):
                if decide(eq(a, b), F) is True:
                    return True
                if clear_denominators(sub(a, b), F) is ZERO:
                    return True
                for c in F.lits:
                    e = solve_symbol(c) if c.op == "eq" else None
                    if e:
                        x = top_subst(sub(a, b), e)
                        if x is ZERO or clear_denominators(x, F) is ZERO:
                            return True
            for t in (a, b):
                if t.op == "min":
                    return self.split_min(goal, t, F, H, depth, seen)
            if a.op == "poly" or b.op == "poly":
                # common summands
                d = sub(a, b)
                if d.op == "poly" and len(d.args) == 2 and d.args[0][0] == -d.args[1][0]:
                    x, y = (_mono(c, m) for c, m in d.args)
                    x, y = (x, neg(y)) if d.args[0][0] > 0 else (y, neg(x))
                    if (x is not a or y is not b) and (x is not b or y is not a) and size(x) < size(a) + size(b):
                        goal = Goal("eq", (x, y))
                        a, b = x, y
            if self.by_hyp(goal, F, H):
                return True
            for t in (a, b):
                i = find_ite(t, F)
                if i is not None:
                    return self.split(goal, i.args[0], F, H, depth, seen)
            if a.op == b.op and a.op in ("obj",) and same_call(a, b):
                if self.solve(Goal("eq", (a.args[1], b.args[1])), F, H, depth + 1, seen):
                    return True
            if is_int(a) and is_int(b):
                # one half is known
                for u, v in ((a, b), (b, a)):
                    if decide(le(u, v), F) is True:
                        f0 = self.fail
                        if self.solve(Goal("le", (v, u)), F, H, depth + 1, seen):
                            return True
                        self.fail = f0
            x, y = open_boxes(a), open_boxes(b)
            if x is not a or y is not b:
                if x is y or is_numeric(x) and is_numeric(y) and sub(x, y) is ZERO:
                    return True
                if self.solve(Goal("eq", (x, y)), F, H, depth + 1, seen):
                    return True
            return self.induct(goal, F, H, depth, seen)
        if a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
            self.note(goal, F)
            return False
        if self.by_hyp(goal, F, H):
            return True
        if a.op in ("phi", "fin") and b.op in ("phi", "fin", "sym"):
            if self.induct(goal, F, H, depth, seen):
                return True
            return False
        j = fresh("j")
        n = a.shape[0] if not is_num(b.shape[0]) else b.shape[0]
        if is_num(n) and 0 < n.args[0] <= 3:
            return all(self.solve(Goal("eq", (at(a, 0, num(k)), at(b, 0, num(k)))), F, H, depth + 1, seen)
                       for k in range(int(n.args[0])))
        g = Goal("eq", (at(a, 0, j), at(b, 0, j)))
        if g.terms[0] is a or g.terms[0].op == "at" and g.terms[0].args[0] is a and \
                g.terms[1].op == "at" and g.terms[1].args[0] is b and (a.op in ("phi", "fin") and b.op in ("phi", "fin")):
            if self.induct(goal, F, H, depth, seen):
                return True
        return self.solve(g, F.plus(lt(j, n)), H, depth + 1, seen)

    # ------------------------------------------------------------ order
    def do_le(self, goal, F, H, depth, seen, lem=0):
        a, b = goal.terms
        if a is b or b is INF:
            return True
        F1 = self.with_hyps(goal, F, H)
        if decide(le(a, b), F1) is True:
            return True
        if b.op == "min":
            return all(self.solve(Goal("le", (a, x)), F, H, depth + 1, seen) for x in b.args)
        if a is INF and b.op == "obj":
            self.note(goal, F)
            return False
        # the minimum of an array is below each of its entries
        for w in self.witnesses(a, b, F, H):
            if self.solve(Goal("le", (w, b)), F, H, depth + 1, seen):
                return True
        if a.op == "ite":
            return self.split(goal, a.args[0], F, H, depth, seen)
        if b.op == "ite":
            return self.split(goal, b.args[0], F, H, depth, seen)
        if a.op == "min":
            for x in a.args:
                f0 = self.fail
                if self.solve(Goal("le", (x, b)), F, H, depth + 1, seen):
                    return True
                self.fail = f0 if f0 is not None else self.fail
            return False
        for t in (a, b):
            i = find_ite(t, F)
            if i is not None:
                return self.split(goal, i.args[0], F, H, depth, seen)
        if self.by_hyp(goal, F, H):
            return True
        for t in self.tactics:
            if t(self, goal, F, H, depth, seen):
                return True
        o = Goal("le", (open_boxes(a), open_boxes(b))) if self.tactics else goal
        if o != goal:
            return self.solve(o, F, H, depth + 1, seen)
        # through a known comparison
        if self.lemma_depth < 3:
            self.lemma_depth += 1
            try:
                for e, side in self.chain(a, b, F):
                    g = Goal("le", (a, e)) if side else Goal("le", (e, b))
                    if (g, "c") in seen:
                        continue
                    f0 = self.fail
                    if self.solve(g, F, H, depth + 1, seen | {(g, "c")}):
                        return True
                    self.fail = f0
            finally:
                self.lemma_depth -= 1
        return self.induct(goal, F, H, depth, seen)

    def chain(self, a, b, F):
        for q, qs in F.ineqs:
            # q <= 0
            e = add(q, b)
            if e is not a and size(e) < size(add(q, neg(b))) and e.op != "num" and simple(e):
                yield e, True
            e = sub(a, q)
            if e is not b and simple(e):
                yield e, False

    def witnesses(self, a, b, F, H):
        """Values that a is certainly not larger than: entries of the array it is the minimum of."""
        out = []
        for am in {n for n in nodes(a) if n.op == "argmin"}:
            M = am.args[0]
            if M.shape is None or len(M.shape) != 1:
                continue
            if at(M, 0, am) is not a:
                continue
            # the best of the values that entries have been ranked by
            ws = [argmin(n.args[0]) for n in nodes(M) if n.op == "argsort" and n.args[0].shape == M.shape and not free_bvs(n)]
            for i in indices(b):
                if i is not am:
                    ws.append(i)
            for n in nodes(b):
                if n.op == "argmin" and n is not am:
                    ws.append(n)
            for n in nodes(M):
                if n.op in ("phi", "fin") and n.shape == M.shape and is_numeric(n):
                    ws.append(argmin(n))
            for w in ws:
                if w not in out:
                    out.append(w)
            return [at(M, 0, w) for w in out if w is not am]
        return []

    # ------------------------------------------------------------ conditions
    def do_true(self, goal, F, H, depth, seen):
        c = goal.terms[0]
        d = decide(c, F)
        if d is True:
            return True
        if c.op in ("lt", "le") and H and decide(c, self.with_hyps(goal, F, H)) is True:
            return True
        if c.op == "and":
            return all(self.solve(true(x), F, H, depth + 1, seen) for x in c.args)
        if c.op == "ite":
            return self.split(goal, c.args[0], F, H, depth, seen)
        i = find_ite(c, F)
        if i is not None and i is not c:
            return self.split(goal, i.args[0], F, H, depth, seen)
        if c.op == "or":
            if refuted(list(self.with_hyps(goal, F, H).lits) + [bnot(x) for x in c.args]):
                return True
            if self.by_hyp(goal, F, H):
                return True
            if self.induct(goal, F, H, depth, seen):
                return True
            x, rest = c.args[0], c.args[1:]
            return self.split(true(bor(*c.args)), lit_of(c, F) or x, F, H, depth, seen) if lit_of(c, F) is not None and \
                not self.only_literals(c) else False
        if c.op == "le":
            p = c.args[0]
            if self.do_le(Goal("le", (p, ZERO)), F, H, depth + 1, seen):
                return True
        if self.by_hyp(goal, F, H):
            return True
        if d is False:
            self.note(goal, F)
            return False
        if c.op == "lt" and H:
            # joins in the range of a row
            for x in F.lits:
                if x.op in ("le", "lt", "eq") and is_int(x.args[0]) and any(is_var(n) for n in nodes(x)):
                    i = find_ite(x, F)
                    if i is not None and lit_of(i.args[0], F) is not None:
                        return self.split(goal, i.args[0], F, H, depth, seen)
            for m in scalar_mins(c):
                return self.split_min(goal, m, F, H, depth, seen)
        return self.induct(goal, F, H, depth, seen)

    def only_literals(self, c):
        return all(x.op not in ("and", "or", "not", "ite") or x.op == "not" and x.args[0].op not in ("and", "or", "ite")
                   for x in c.args)

    # ------------------------------------------------------------ hypotheses
    def instances(self, goal, h):
        """Instantiations of a hypothesis by the indices occurring in the goal."""
        if not h.vars:
            yield {}
            return
        if len(h.vars) == 1:
            v = h.vars[0]
            bases = set()
            for t in h.goal.terms:
                for n in nodes(t):
                    if n.op == "at" and n.args[2] is v:
                        bases.add((n.args[0], n.args[1]))
            cand = {}
            for t in goal.terms:
                for n in nodes(t):
                    if n.op == "at" and (n.args[0], n.args[1]) in bases:
                        cand[n.args[2]] = 1
            for c in cand:
                if not free_bvs(c):
                    yield {v: c}
            return
        # two indices: structural matching
        m = {}
        for p, t in zip(h.goal.terms, goal.terms):
            if not match(p, t, set(h.vars), m):
                return
        if len(m) == len(h.vars):
            yield m

    def by_hyp(self, goal, F, H):
        for h in H:
            if h.goal.kind != goal.kind:
                continue
            for m in self.instances(goal, h):
                ts = tuple(subst(t, m) for t in h.goal.terms) if m else h.goal.terms
                if ts == goal.terms or goal.kind == "eq" and ts == goal.terms[::-1]:
                    if all(decide(subst(g, m), F) is True for g in h.guards):
                        return True
        return False

    def with_hyps(self, goal, F, H):
        add_ = []
        for h in H:
            if h.goal.kind == "le":
                g = goal
                for m in self.instances(g, h):
                    if all(decide(subst(x, m), F) is True for x in h.guards):
                        p, q = (subst(t, m) for t in h.goal.terms)
                        add_.append(le(p, q))
            elif h.goal.kind == "true":
                for m in self.instances(goal, h):
                    if all(decide(subst(x, m), F) is True for x in h.guards):
                        add_.append(subst(h.goal.terms[0], m))
        return F.plus(*add_) if add_ else F

    # ------------------------------------------------------------ induction
    def induct(self, goal, F, H, depth, seen):
        if not self.induction:
            self.note(goal, F)
            return False
        ls = set()
        for t in goal.terms:
            ls |= free_loops(t)
        ls = sorted((l for l in ls if l in LOOPS), reverse=True)
        if not ls:
            self.note(goal, F)
            return False
        L = ls[0]
        sub_ = {}
        for t in goal.terms:
            fins(t, L, sub_)
        goal0 = goal
        if sub_:
            goal = Goal(goal.kind, tuple(subst(t, sub_) for t in goal.terms))
        f0 = self.fail
        tried = []
        todo = self.generalize(goal, L, F, goal0)
        if self.order == "peel" and sub_:
            todo = chain_([(goal, (), "peel")], todo)
        for g, vs, guards in todo:
            k = (L, g, guards)
            if k in tried:
                continue
            tried.append(k)
            if guards == "peel":
                if sub_ and self.peel(goal0, sub_, L, F, H, depth, seen):
                    self.fail = f0
                    return True
                continue
            if self.invariant(g, vs, guards, L, F, H, depth, seen):
                self.fail = f0
                return True
        self.note(goal, F)
        return False

    def peel(self, goal, sub_, L, F, H, depth, seen):
        """The statement about the values a loop is left with, from the state before its first pass (no pass)
        and from an arbitrary last pass."""
        key = (L, "peel", goal)
        if key in seen or any(isinstance(k, tuple) and len(k) == 3 and k[1] == "peel" and k[0] == L for k in seen):
            return False
        if any(bare(t, L) for t in goal.terms):
            return False
        info = LOOPS[L]
        k = iterk(L)
        seen2 = seen | {key}
        Hout = tuple(h for h in H if not any(within(t, L) for t in h.goal.terms))
        lits = [c for c in F.lits if not bare(c, L)]
        fs = {}
        for c in lits:
            fins(c, L, fs)
        fs.update(sub_)
        for last in (False, True):
            m = {p: (b if last else a) for p, (a, b) in info.phis.items()}
            m[k] = add(k, ONE) if last else ZERO
            ms = {f: subst(t, m) for f, t in fs.items()}
            g = Goal(goal.kind, tuple(subst(t, ms) for t in goal.terms))
            fl = [subst(c, ms) for c in lits]
            if last:
                fl += list(info.body_pc) + list(info.end_pc) + [info.back]
            fl += list(info.pc)
            if info.count is not None:
                c = eq(m[k], info.count) if last else le(info.count, ZERO)
                if decide(c, facts(fl)) is False:
                    continue
                fl.append(c)
            for c in fl:
                e = solve_symbol(c) if c.op == "eq" else None
                if e:
                    g = Goal(g.kind, tuple(top_subst(t, e) for t in g.terms))
            F2 = facts(fl + list(self.axioms) + self.known(*g.terms))
            if FALSE in F2.lits:
                continue
            if any(n.op == "undef" for n in gnodes(g)):
                self.note(g, F2, "(unset)")
                return False
            if not self.solve(g, F2, Hout, depth + 1, seen2):
                return False
        return True

    def generalize(self, goal, L, F, goal0):
        """Stronger statements over all entries, then the statement itself."""
        idx = {}
        for t in goal.terms:
            for n in nodes(t):
                if n.op == "at" and L in free_loops(n.args[0]) and n.args[2].shape == ():
                    idx.setdefault(n.args[2], n)
        free = [i for i in idx if not free_bvs(i)]
        fv = {n for t in goal.terms for n in nodes(t) if is_var(n)}
        big = [i for i in free if not is_var(i)]
        if big and all(not is_num(i) for i in big):
            # only outermost indices
            big = [i for i in big if not any(i is not k and depends(k, i) for k in big)]
            m = {i: fresh("j") for i in big}
            g = Goal(goal.kind, tuple(subst(t, m) for t in goal.terms))
            vs = tuple(sorted({n for t in g.terms for n in nodes(t) if is_var(n)}))
            yield g, vs, ()
            if any(i.op != "argmin" and L in free_loops(i) for i in big):
                yield goal, tuple(sorted(fv)), ()
                yield goal, (), "peel"
                yield from self.relative(goal, L, F, tuple(sorted(fv)))
                return
        vs = tuple(sorted(fv))
        # index guards known here
        guards = []
        for c in F.lits:
            if c.op in ("lt", "le", "eq") and is_int(c.args[0]) and any(depends(c, v) for v in vs) and \
                    all(x.op in ("num", "sym", "iter", "fresh", "poly") for x in nodes(c.args[0])) and \
                    any(x.op == "iter" and x.args[0] == L for x in nodes(c)):
                guards.append(c)
                guards.extend(le(ZERO, v) for v in vs if depends(c, v) and le(ZERO, v) in F.lits)
        yield goal, vs, ()
        if guards:
            yield goal, vs, tuple(dict.fromkeys(guards))
        for g in self.written(goal, L, F, vs, goal0):
            yield goal, vs, (g, le(ZERO, vs[0])) if decide(le(ZERO, vs[0]), F) is True else (g,)
        yield goal, (), "peel"
        yield from self.relative(goal, L, F, vs)

    def written(self, goal, L, F, vs, goal0):
        """The rows a loop has filled so far, when these include the row in question."""
        info = LOOPS[L]
        if len(vs) != 1:
            return
        v = vs[0]
        tabs = {n.args[0] for t in goal.terms for n in nodes(t) if n.op == "at" and n.args[2] is v and n.args[1] == 0
                and n.args[0] in info.phis}
        if len({t.shape[0] for t in tabs}) != 1:
            return
        k = iterk(L)
        counts = counts_of(L, tabs)
        end = {p: fin(L, p) for p in info.phis}
        end[k] = fin(L, k) if info.count is None or any(e[0] == "break" for e in info.exits) else info.count
        n = tabs.pop().shape[0]
        # the row is one of these where the statement is made: in a pass, where the loop is left
        inside = any(bare(t, L) for t in goal0.terms)
        left = any(fins(t, L, {}) for t in goal0.terms)
        F2 = F.plus(lt(v, n), *self.known(*[subst(c, end) for c in counts]))
        if info.count is not None:
            F2 = F2.plus(le(ZERO, info.count))
        for c in counts:
            g = lt(v, c)
            if g not in (TRUE, FALSE) and (not left or decide(subst(g, end), F2) is True) and \
                    (not inside or decide(g, F2) is True):
                yield g

    def relative(self, goal, L, F, vs):
        """The statement relative to the state the loop is left in or goes on with."""
        state = []
        inner = facts(list(LOOPS[L].body_pc)).lits
        body = []
        for c in F.lits:
            if L not in free_loops(c) or below(c, L) or any(is_var(n) or n.op == "undef" for n in nodes(c)):
                continue
            m = fins(c, L, {})
            c2 = subst(c, m) if m else c
            if L not in free_loops(c2) or c2 is TRUE:
                continue
            if c in inner:
                body.append(c)
            elif m:
                state.append(c2)
        if body:
            yield goal, vs, tuple(body)
        if state:
            yield goal, vs, tuple(state)

    def is_extent(self, c, vs, goal):
        for t in goal.terms:
            for n in nodes(t):
                if n.op == "at" and n.args[2] in vs and n.args[0].shape is not None and len(n.args[0].shape) > n.args[1]:
                    if c is lt(n.args[2], n.args[0].shape[n.args[1]]):
                        return True
        return False

    def extents(self, g, vs):
        out = {}
        for t in g.terms:
            for n in nodes(t):
                if n.op == "at" and n.args[2] in vs and n.args[0].shape is not None and len(n.args[0].shape) > n.args[1]:
                    if not free_bvs(n.args[0].shape[n.args[1]]):
                        out[lt(n.args[2], n.args[0].shape[n.args[1]])] = 1
        return [c for c in out if c is not FALSE]

    def invariant(self, g, vs, guards, L, F, H, depth, seen):
        info = LOOPS[L]
        # rename variables so that they do not meet the ones of enclosing statements
        m = {v: fresh("j") for v in vs}
        if m:
            g = Goal(g.kind, tuple(subst(t, m) for t in g.terms))
            guards = tuple(subst(c, m) for c in guards)
            vs = tuple(m.values())
        key = (L, canon(g, vs), guards and tuple(canon(Goal("true", (c,)), vs).terms[0] for c in guards))
        outer = [c for c in F.lits if not within(c, L) and not any(is_var(n) for n in nodes(c))]
        Hout = tuple(h for h in H if not any(within(t, L) for t in h.goal.terms))
        Hsame = tuple(h for h in H if not any(below(t, L) for t in h.goal.terms) and h not in Hout)
        kept = self.kept.setdefault((key, len(self.rw)), [])
        for o, h in kept:
            if o.issubset(outer) and h.issubset(Hout + Hsame):
                return True
        if key in seen:
            return False
        if len([k for k in seen if isinstance(k, tuple) and k and k[0] == L]) > 5:
            return False
        self.nob += 1
        self.loops.add(L)
        seen2 = seen | {key}
        k = iterk(L)
        ext = self.extents(g, vs)
        # on entry
        mi = {p: a for p, (a, b) in info.phis.items()}
        mi[k] = ZERO
        gi = Goal(g.kind, tuple(subst(t, mi) for t in g.terms))
        Fi = facts(list(info.pc) + outer + ext + [subst(c, mi) for c in guards] + list(self.axioms) + self.known(*gi.terms))
        if not (FALSE in Fi.lits) and any(n.op == "undef" for n in gnodes(gi)) and not (guards and Fi.contradictory):
            self.note(gi, F)
            return False
        if not (FALSE in Fi.lits) and not self.solve(gi, Fi, Hout, depth + 1, seen2) and not (guards and Fi.contradictory):
            return False
        # on the back edge
        mn = {p: b for p, (a, b) in info.phis.items()}
        mn[k] = add(k, ONE)
        gn = Goal(g.kind, tuple(subst(t, mn) for t in g.terms))
        Fn = facts(list(info.body_pc) + list(info.end_pc) + [info.back] + outer + ext + [subst(c, mn) for c in guards]
                   + list(self.axioms) + self.known(*gn.terms))
        Hn = Hout + Hsame + (Hyp(g, vs, guards),)
        # with a further incoming fact, statements about inner loops may be decided anew
        seen3 = frozenset(x for x in seen2 if x[0] is g or isinstance(x[0], int) and x[0] <= L)
        if FALSE in Fn.lits or self.solve(gn, Fn, Hn, depth + 1, seen3):
            kept.append((frozenset(outer), frozenset(Hout + Hsame)))
            return True
        return False


def scalar_mins(c):
    """Smallest-of-two operands of a comparison."""
    p = c.args[0]
    ms = [a for co, mono in p.args for a, e in mono] if p.op == "poly" else [p]
    return [m for m in ms if m.op == "min" and m.shape == ()]


def counts_of(L, tabs):
    """Integers a loop counts by: its counter, integer variables and the rows it writes."""
    from .props.extract import stores

    k = iterk(L)
    counts = {k: 1}
    a = L
    while a is not None and a in LOOPS:
        for p in LOOPS[a].phis:
            if p.shape == () and is_int(p) and not LOOPS[a].names.get(p, "").startswith("$"):
                counts[p if a == L else add(p, k)] = 1
        if a != L:
            counts[add(iterk(a), k)] = 1
        a = LOOPS[a].parent
    for t in tabs:
        for i in stores(LOOPS[L].phis[t][1], t) or ():
            counts[i] = 1
    return counts


def clear_denominators(d, F, positive=False):
    """d multiplied by its denominators, when these are known not to vanish (to be positive)."""
    for _ in range(4):
        if d.op != "poly":
            return d
        den = None
        for c, m in d.args:
            for a, e in m:
                if e < 0 and (den is None or e < den[1]) and (decide(lt(ZERO, a), F) is True if positive else decide(eq(a, ZERO), F) is False):
                    den = (a, e)
        if den is None:
            return d
        a, e = den
        out = ZERO
        for c, m in d.args:
            k = dict(m).get(a, 0)
            r = _mono(c, tuple(x for x in m if x[0] is not a))
            n = k - e
            for _ in range(int(n)):
                r = mul2(r, a)
            if n != int(n):
                return d
            out = add(out, r)
        d = out
    return d


def _mono(c, m):
    r = num(c)
    for a, e in m:
        r = mul2(r, power(a, num(e)) if e != 1 else a)
    return r


def open_boxes(t):
    """Large operands compared by their contents."""
    for _ in range(12):
        x = open_boxes1(t)
        if x is t:
            break
        t = x
    return t


def open_boxes1(t):
    m = {}
    seen = set()
    st = [(t, 12)]
    while st:
        a, d = st.pop()
        if a in seen or d < 0:
            continue
        seen.add(a)
        if a.op == "box":
            m[a] = a.args[0]
            continue
        if bounded_ops(a.op) or a.op == "ite":
            st.extend((c, d - 1) for c in children(a))
    return subst(t, m) if m else t


def bare(t, L):
    """A variable of loop L occurs outside its exit values."""
    seen = set()
    st = [t]
    while st:
        a = st.pop()
        if a in seen or L not in free_loops(a):
            continue
        seen.add(a)
        if a.op == "fin" and a.args[0] == L:
            continue
        if a.op in ("phi", "iter"):
            return True
        st.extend(children(a))
    return False


def solve_symbol(c):
    """Substitution for an input symbol determined by an integer equality."""
    p = c.args[0]
    if p.op != "poly":
        return None
    for co, m in p.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and abs(co) == 1:
            v = m[0][0]
            rest = add(p, neg(v)) if co == 1 else add(p, v)
            r = neg(rest) if co == 1 else rest
            if not depends(r, v):
                return {v: r}
    return None


def top_subst(t, m):
    """Replace a symbol in the arithmetic at the top of t (not below arrays and calls)."""
    if t in m:
        return m[t]
    if t.op == "poly":
        r = ZERO
        for c, mon in t.args:
            x = num(c)
            for a, e in mon:
                b = top_subst(a, m)
                x = mul2(x, power(b, num(e)) if e != 1 else b)
            r = add(r, x)
        return r
    return t


def ancestors(l):
    out = []
    while l is not None and l in LOOPS:
        l = LOOPS[l].parent
        out.append(l)
    return out


def below(t, L):
    """t depends on a pass of a loop nested in L."""
    return any(l != L and L in ancestors(l) for l in free_loops(t))


def within(t, L):
    return L in free_loops(t) or below(t, L)


def simple(e):
    """A single operand (entry, exit value, objective value)."""
    return e.op in ("at", "phi", "fin", "obj", "sym", "ite", "min")


def same_call(a, b):
    return a.args[0] == b.args[0] and a.args[2:] == b.args[2:]


def index_eq(lit):
    """Substitution for an equality between an index symbol and a term."""
    if lit.op != "eq":
        return None
    p = lit.args[0]
    if p.op == "fresh":
        return {p: ZERO}
    if p.op != "poly":
        return None
    for c, m in p.args:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fresh" and abs(c) == 1:
            v = m[0][0]
            rest = add(p, neg(v)) if c == 1 else add(p, v)
            r = neg(rest) if c == 1 else rest
            if not depends(r, v):
                return {v: r}
    return None


def match(p, t, vs, m):
    if p in vs:
        if p in m:
            return m[p] is t
        m[p] = t
        return True
    if p is t:
        return True
    if p.op != t.op or p.shape != t.shape and len(p.shape or ()) != len(t.shape or ()):
        return False
    if p.op == "poly":
        return False
    if len(p.args) != len(t.args):
        return False
    for x, y in zip(p.args, t.args):
        if isinstance(x, T) and isinstance(y, T):
            if not match(x, y, vs, m):
                return False
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if x != y:
                return False
        elif x != y:
            return False
    return True


_cv = {}


def canon(g, vs):
    m = {}
    for i, v in enumerate(sorted(vs)):
        if i not in _cv:
            _cv[i] = mk("fresh", ("jcanon%d" % i,), ())
        m[v] = _cv[i]
    return Goal(g.kind, tuple(subst(t, m) for t in g.terms))
