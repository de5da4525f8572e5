"""Decision of comparisons from bounds of atoms and known facts.

A small interval/linear reasoner: to show p <= 0 it replaces atoms that occur
linearly by one of their known bounds, uses facts (comparisons known to hold)
and signs of products.  Sound (over the reals), incomplete.
"""
from fractions import Fraction

from .terms import *
from . import terms as tm


class Facts:
    """Immutable set of known boolean terms with extracted linear inequalities."""

    __slots__ = ("lits", "ineqs", "memo", "key", "index", "bymono")

    def __init__(self, lits=()):
        s = {}
        stack = list(lits)
        while stack:
            c = stack.pop()
            if c is TRUE:
                continue
            if c.op == "and":
                stack.extend(c.args)
                continue
            if c.op == "not" and c.args[0].op == "or":
                stack.extend(bnot(a) for a in c.args[0].args)
                continue
            s[c] = True
        self.lits = s
        self.ineqs = []
        for c in s:
            if c.op == "lt":
                p = c.args[0]
                if is_int(p):
                    self.ineqs.append((add(p, ONE), False))
                else:
                    self.ineqs.append((p, True))
            elif c.op == "le":
                self.ineqs.append((c.args[0], False))
            elif c.op == "eq":
                self.ineqs.append((c.args[0], False))
                self.ineqs.append((neg(c.args[0]), False))
        # integers that differ
        for c in s:
            if c.op == "not" and c.args[0].op == "eq":
                p = c.args[0].args[0]
                if p.shape == () and is_int(p):
                    n = neg(p)
                    for q, qs in list(self.ineqs):
                        if q is p or q is n:
                            self.ineqs.append((add(q, ONE), False))
        self.memo = {}
        self.key = frozenset(s)
        self.index = {}
        self.bymono = {}
        for q, qs in self.ineqs:
            k, c0 = pkey(q)
            if k is None:
                continue
            self.index.setdefault(k, []).append((c0, qs))
            for c, m in monos(q):
                if m:
                    self.bymono.setdefault(m, []).append((q, qs, c))

    def plus(self, *cs):
        return facts(list(self.lits) + list(cs))

    def holds(self, c):
        return c in self.lits

    @property
    def contradictory(self):
        r = self.memo.get("contra")
        if r is None:
            self.memo["contra"] = False
            r = FALSE in self.lits or any(bnot(c) in self.lits for c in self.lits)
            if not r:
                for c in self.lits:
                    if c.op in ("lt", "le", "eq", "or"):
                        rest = facts([x for x in self.lits if x is not c])
                        if decide(c, rest) is False:
                            r = True
                            break
            self.memo["contra"] = r
        return r


def monos(p):
    return p.args if p.op == "poly" else ((Fraction(1), ((p, 1),)),)


def pkey(p):
    """(non constant part scaled by a positive number, constant part) of a term."""
    if p.op == "num":
        return None, p.args[0]
    if p.op != "poly":
        return ((Fraction(1), ((p, 1),)),), 0
    a = p.args
    c0 = 0
    if not a[0][1]:
        c0 = a[0][0]
        a = a[1:]
    s = abs(a[0][0])
    if s == 1:
        return a, c0
    return tuple((c / s, m) for c, m in a), c0 / s


FUEL = [0]
LIMIT = 4000


_fcache = {}


def facts(lits=()):
    k = frozenset(lits)
    f = _fcache.get(k)
    if f is None:
        f = _fcache[k] = Facts(lits)
    return f


NOFACTS = facts()


def bounds(a):
    """(lower bounds, upper bounds) of an atom, as lists of terms."""
    op = a.op
    if op == "sym":
        lo, hi = a.args[2], a.args[3]
        return ([lo] if lo is not None else []), ([hi] if hi is not None else [])
    if op == "fn":
        n = a.args[0]
        x = a.args[1]
        if n in ("exp", "sqrt"):
            return [ZERO], []
        if n == "abs":
            return [ZERO, x, neg(x)], []
        if n == "int":
            # truncation toward zero
            if nonneg(x, NOFACTS):
                return [ZERO], [x]
            return [], [max_(x, ZERO)]
        if n == "floor":
            return [sub(x, ONE)], [x]
        if n == "ceil":
            return [x], [add(x, ONE)] + ([] if not _ceil_hi(x) else _ceil_hi(x))
        if n == "mod":
            if pos(a.args[2], NOFACTS):
                if is_int(a):
                    return [ZERO], [sub(a.args[2], ONE)]
                return [ZERO], [a.args[2]]
        if n in ("cos", "sin"):
            return [num(-1)], [ONE]
        if n == "sign":
            return [num(-1)], [ONE]
        return [], []
    if op == "rnd":
        if a.args[0] == "u01":
            return [ZERO], [ONE]
        if a.args[0] == "randint":
            return [a.args[1][0]], [sub(a.args[1][1], ONE)]
        return [], []
    if op == "at":
        b = a.args[0]
        while b.op in ("at",):
            b = b.args[0]
        if b.op == "rnd" and b.args[0] in ("u01", "randint"):
            return bounds(b)
        if b.op in ("argsort", "rperm") and b is a.args[0]:
            return [ZERO], [sub(dim(b), ONE)]
        if b.op == "argsort" or b.op == "rperm":
            return [ZERO], []
        if b.op == "slc" and b is a.args[0] and b.args[0].op in ("argsort", "rperm"):
            return [ZERO], [sub(dim(b.args[0]), ONE)]
        return [], []
    if op in ("argmin",):
        return [ZERO], [sub(dim(a.args[0]), ONE)]
    if op in ("iter", "len", "count", "bv"):
        hi = []
        if op == "iter":
            c = tm.LOOP_COUNT.get(a.args[0])
            if c is not None:
                hi = [sub(c, ONE)]
        return [ZERO], hi
    if op in ("rankof",):
        return [ZERO], [sub(dim(a.args[1]), ONE)]
    if op == "pos":
        return [ZERO], [sub(dim(a.args[1]), ONE)]
    if op == "min":
        return [], list(a.args)
    if op == "sum":
        n, bv, body = a.args
        if nonneg(body, NOFACTS):
            return [ZERO], []
        return [], []
    if op == "fresh":
        return ([ZERO], []) if a.args[0][0] in "ijk" else ([], [])
    if op == "ite":
        c, x, y = a.args
        lo, hi = [], []
        if is_num(x) and is_num(y):
            lo = [num(min(x.args[0], y.args[0]))]
            hi = [num(max(x.args[0], y.args[0]))]
        return lo, hi
    if op == "fin":
        if a.args[1].op == "iter":
            return [ZERO], []
        return [], []
    return [], []


def _ceil_hi(x):
    # ceil(v * n) <= n when v <= 1 and n is an integer
    out = []
    if x.op == "poly" and len(x.args) == 1:
        c, m = x.args[0]
        ints = [a for a, e in m if e == 1 and is_int(a)]
        for n in ints:
            if le0(sub(x, n), NOFACTS):
                out.append(n)
    elif x.op != "poly" and is_int(x):
        out.append(x)
    else:
        # upper integer bound through the bounds of atoms
        pass
    return out


def nonneg(t, f=NOFACTS):
    return le0(neg(t), f)


def pos(t, f=NOFACTS):
    return le0(neg(t), f, strict=True)


def le0(p, f=NOFACTS, strict=False, depth=6):
    """Whether p <= 0 (or p < 0) is certain."""
    p = tonum(p)
    if p.op == "full":
        p = p.args[1]
    if p.op == "num":
        v = p.args[0]
        return v < 0 if strict else v <= 0
    if p.op == "poly" and len(p.args) == 1 and p.args[0][1] == ((INF, 1),):
        return p.args[0][0] < 0
    if p is INF:
        return False
    key = (p, strict)
    r = f.memo.get(key)
    if r is not None and (r[0] or r[1] >= depth):
        return r[0]
    f.memo[key] = (False, depth)
    v = _le0(p, f, strict, depth)
    if v or FUEL[0] <= LIMIT:
        f.memo[key] = (v, depth)
    else:
        f.memo.pop(key, None)
    return v


def sign_mono(c, m, f):
    """Sign of a monomial: 1, -1 (weak), 0 unknown; strict flag."""
    s = 1 if c > 0 else -1
    strict = True
    for a, e in m:
        ie = int(e) if not isinstance(e, Fraction) or e.denominator == 1 else None
        if ie is not None and ie % 2 == 0:
            if ie > 0:
                strict = strict and nonzero(a, f)
            continue
        sa = sign(a, f)
        if sa is None:
            return None, False
        s *= sa[0]
        strict = strict and (sa[1] or ie is not None and ie < 0)
    return s, strict


def nonzero(a, f):
    s = sign(a, f)
    return bool(s and s[1])


def sign(a, f=NOFACTS):
    """(sign, strict) of a term or None."""
    if a.op == "num":
        v = a.args[0]
        return (1, True) if v > 0 else (-1, True) if v < 0 else (1, False)
    if a is INF:
        return (1, True)
    if a.op == "fn" and a.args[0] == "exp":
        return (1, True)
    if le0(neg(a), f, strict=True, depth=4):
        return (1, True)
    if le0(neg(a), f, depth=4):
        return (1, False)
    if le0(a, f, strict=True, depth=4):
        return (-1, True)
    if le0(a, f, depth=4):
        return (-1, False)
    return None


_busy = set()


def _le0(p, f, strict, depth):
    if depth <= 0:
        return False
    # facts
    FUEL[0] += 1
    if FUEL[0] > LIMIT:
        return False
    pk, pc0 = pkey(p)
    for c0, qs in f.index.get(pk, ()):
        v = pc0 - c0
        if v < 0 or (v == 0 and (qs or not strict)):
            return True
    terms_ = monos(p)
    if len(terms_) > 24:
        return False
    # all monomials of the right sign
    if depth >= 1:
        allneg, anystrict = True, False
        for c, m in terms_:
            if not m:
                if c > 0:
                    allneg = False
                    break
                anystrict = anystrict or c < 0
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op != "num":
                a = m[0][0]
                sg = atom_sign(a, f, depth - 1)
                if sg is None or (sg[0] > 0) == (c > 0) :
                    if not (sg is not None and sg[0] * (1 if c > 0 else -1) < 0):
                        allneg = False
                        break
                anystrict = anystrict or sg[1]
                continue
            s, st = sign_mono_d(c, m, f, depth - 1)
            if s is None or s > 0:
                allneg = False
                break
            anystrict = anystrict or st
        if allneg and (anystrict or not strict):
            return True
    # case split on a conditional atom
    for c, m in terms_:
        for a, e in m:
            if a.op == "ite" and a.shape == () and depth > 2:
                k = a.args[0]
                f1, f2 = f.plus(k), f.plus(bnot(k))
                if (f1.contradictory or le0(subst(p, {a: a.args[1]}), f1, strict, depth - 1)) and (
                    f2.contradictory or le0(subst(p, {a: a.args[2]}), f2, strict, depth - 1)
                ):
                    return True
                return False
    # endpoint substitution
    cands = []
    for c, m in terms_:
        for a, e in m:
            if e == 1 and a not in cands:
                cands.append(a)
            elif e == -1 and a not in cands:
                cands.append(a)
    for a in cands:
        # p = coef * a + rest   (occurrences with exponent 1 only)
        coef = {}
        rest = {}
        icoef = {}
        ok = True
        for c, m in terms_:
            md = dict(m)
            if a in md:
                if md[a] == 1:
                    coef[tuple((x, e) for x, e in m if x is not a)] = c
                elif md[a] == -1:
                    icoef[tuple((x, e) for x, e in m if x is not a)] = c
                else:
                    rest[m] = c
            else:
                rest[m] = c
        if coef and not icoef:
            cp = tm._mkpoly(coef)
            rp = tm._mkpoly(rest)
            sg = sign_p(cp, f, depth - 2)
            if sg is None:
                continue
            lo, hi = bounds(a)
            if a.op == "min" and a.shape is not None and sg < 0:
                # lower bound of a minimum: every element
                if all(le0(add(mul2(cp, x), rp), f, strict, depth - 1) for x in a.args):
                    return True
            for b in (hi if sg > 0 else lo):
                if le0(add(mul2(cp, b), rp), f, strict, depth - 1):
                    return True
        elif icoef and not coef:
            # inverse of a: 1/a in (0, 1/lo]
            cp = tm._mkpoly(icoef)
            rp = tm._mkpoly(rest)
            sg = sign_p(cp, f, depth - 2)
            if sg is None:
                continue
            if not pos(a, f):
                continue
            if sg > 0:
                los = bounds(a)[0] if a.op != "poly" else []
                if a.op == "poly":
                    los = [l for l in (num_low(a, f),) if l is not None]
                for l in los:
                    if is_num(l) and l.args[0] > 0 and le0(add(mul2(cp, inv(l)), rp), f, strict, depth - 1):
                        return True
            else:
                if le0(rp, f, strict, depth - 1):
                    return True
    # combination with one fact: p = q + r, r <= 0
    if depth >= 3:
        for c, m in terms_:
            if m:
                for q, qs, cq in f.bymono.get(m, ()):
                    # scale so that the shared monomial cancels
                    if c / cq > 0:
                        r = sub(p, mul2(num(c / cq), q))
                        if le0(r, f, strict and not qs, depth - 2):
                            return True
    return False


def num_low(a, f):
    """A positive numeric lower bound of a polynomial with nonnegative terms."""
    for c, m in a.args:
        if not m and c > 0:
            rest = sub(a, num(c))
            if nonneg(rest, f):
                return num(c)
    return None


def atom_sign(a, f, depth):
    if a.op == "poly":
        return sign(a, f)
    if a.op == "fn" and a.args[0] == "exp":
        return (1, True)
    if a is INF:
        return (1, True)
    key = ("sg", a)
    if key in f.memo:
        return f.memo[key]
    f.memo[key] = None
    r = None
    for c0, qs in f.index.get(((Fraction(1), ((a, 1),)),), ()):
        # a + c0 <= 0
        if c0 >= 0:
            r = (-1, c0 > 0 or qs or bool(r and r[1]))
    if r is None:
        for c0, qs in f.index.get(((Fraction(-1), ((a, 1),)),), ()):
            # -a + c0 <= 0
            if c0 >= 0:
                r = (1, c0 > 0 or qs or bool(r and r[1]))
    if r is None or not r[1]:
        lo, hi = bounds(a)
        for b in lo:
            if le0(neg(b), f, True, depth - 1):
                r = (1, True)
                break
            if r is None and le0(neg(b), f, False, depth - 1):
                r = (1, False)
        if r is None:
            for b in hi:
                if le0(b, f, True, depth - 1):
                    r = (-1, True)
                    break
                if le0(b, f, False, depth - 1):
                    r = (-1, False)
        if r is None and a.op == "min":
            if all(le0(neg(x), f, False, depth - 1) for x in a.args):
                r = (1, all(le0(neg(x), f, True, depth - 1) for x in a.args))
            elif any(le0(x, f, False, depth - 1) for x in a.args):
                r = (-1, any(le0(x, f, True, depth - 1) for x in a.args))
        if r is None and a.op == "ite":
            c, x, y = a.args
            s1, s2 = sign(x, f.plus(c)), sign(y, f.plus(bnot(c)))
            if s1 and s2 and s1[0] == s2[0]:
                r = (s1[0], s1[1] and s2[1])
    f.memo[key] = r
    if r is None:
        f.memo.pop(key)
    return r


def sign_mono_d(c, m, f, depth):
    s = 1 if c > 0 else -1
    strict = True
    for a, e in m:
        ie = int(e)
        if ie % 2 == 0:
            sg = atom_sign(a, f, depth)
            strict = strict and (ie < 0 or bool(sg and sg[1]))
            continue
        sg = atom_sign(a, f, depth)
        if sg is None:
            return None, False
        s *= sg[0]
        strict = strict and (sg[1] or ie < 0)
    return s, strict


def sign_p(p, f, depth):
    if p.op == "num":
        return 1 if p.args[0] >= 0 else -1
    if le0(neg(p), f, False, max(depth, 1)):
        return 1
    if le0(p, f, False, max(depth, 1)):
        return -1
    return None


_level = [0]


def decide(c, f=NOFACTS):
    """True / False / None."""
    if _level[0] == 0:
        FUEL[0] = 0
    _level[0] += 1
    try:
        return _decide(c, f)
    finally:
        _level[0] -= 1


def _decide(c, f):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in f.lits:
        return True
    n = bnot(c)
    if n in f.lits:
        return False
    op = c.op
    if op == "not":
        r = decide(c.args[0], f)
        return None if r is None else not r
    if op == "and":
        rs = [decide(a, f) for a in c.args]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if op == "or":
        rs = [decide(a, f) for a in c.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        for l in f.lits:
            if l.op == "or" and set(l.args) <= set(c.args):
                return True
        return None
    if op == "full":
        return decide(c.args[1], f)
    if op == "ite":
        k = decide(c.args[0], f)
        if k is True:
            return decide(c.args[1], f)
        if k is False:
            return decide(c.args[2], f)
        a, b = decide(c.args[1], f), decide(c.args[2], f)
        return a if a == b else None
    if op in ("lt", "le"):
        p = c.args[0]
        if le0(p, f, strict=(op == "lt")):
            return True
        if le0(neg(p), f, strict=(op == "le")):
            return False
        # disjunctive facts: each disjunct implies c
        return _by_or(c, f)
    if op == "eq":
        p = c.args[0]
        if le0(p, f, True) or le0(neg(p), f, True):
            return False
        if le0(p, f) and le0(neg(p), f):
            return True
        return None
    if op == "isnone":
        return None
    return None


def _by_or(c, f):
    return None


def propagated(lits, rounds=4, deep=True):
    """Conditions with what follows by unit propagation through their disjunctions; None if they contradict."""
    f = facts(lits)
    for _ in range(rounds):
        if FALSE in f.lits or f.contradictory:
            return None
        new = []
        for c in f.lits:
            if c.op != "or":
                continue
            left = [a for a in c.args if decide(a, f) is not False and
                    not (deep and a.op == "and" and propagated(list(f.lits) + [a], rounds, False) is None)]
            if not left:
                return None
            if len(left) == 1 and left[0] not in f.lits:
                new.extend(x for x in facts(left).lits if x not in f.lits)
        if not new:
            return f
        f = f.plus(*new)
    return None if f.contradictory else f


def refuted(lits):
    return propagated(lits) is None


def assume(t, f):
    """Simplify a term under facts (conditions decided by the facts are replaced)."""
    memo = f.memo.setdefault("assume", {})

    def g(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = x
        if x.op in ("lt", "le", "eq", "and", "or", "not", "isnone", "eqv", "any", "mem", "bsym", "phi", "at", "exc", "truth") and is_bool(x) and x.shape == ():
            d = decide(x, f)
            if d is not None:
                r = TRUE if d else FALSE
                memo[x] = r
                return r
        if x.op in ("lt", "le", "eq"):
            pass
        r = rebuild(x, g)
        if r is not x:
            r2 = g(r) if r not in memo else memo[r]
            r = r2
        memo[x] = r
        return r

    g.mapping = {}
    g.keys_by_loop = None
    res = g(t)
    # equalities between an index symbol and a term are substituted
    return res


tm.LOOP_COUNT = {}
