"""Order relations between the integer variables of loops.

The candidates p < q, p <= q and 0 <= p over the scalar integer variables (and the counter) of every
loop are refined until the rest is inductive: each must hold where the loop is entered and be kept by
every pass, given the other candidates that are left.
"""
from .interp import LOOPS
from .order import decide, facts
from .terms import *


def index_vars(terms):
    """Integer loop variables that select entries of tables in the terms, and those these come from."""
    todo = []
    roots = list(terms)
    done = set()
    while roots:
        t = roots.pop()
        if t in done:
            continue
        done.add(t)
        for n in nodes(t):
            if n.op == "at" and n.args[2].shape == ():
                todo.append(n.args[2])
        # scalars a loop carries
        for n in leaves_of(t):
            p = n.args[1] if n.op == "fin" else n
            if p.op == "phi" and p.shape == () and p.args[0] in LOOPS and p in LOOPS[p.args[0]].phis:
                roots.extend(LOOPS[p.args[0]].phis[p])
    out = {}
    while todo:
        t = todo.pop()
        for n in leaves_of(t):
            p = n.args[1] if n.op == "fin" else n
            if p.op == "phi" and p.args[0] in LOOPS and p in LOOPS[p.args[0]].phis and p not in out:
                out[p] = 1
                todo.extend(LOOPS[p.args[0]].phis[p])
    return [p for p in out if p.shape == () and is_int(p)]


def leaves_of(t):
    st, seen = [t], set()
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.op == "ite":
            st.extend(n.args[1:])
        elif n.op in ("phi", "fin"):
            yield n
        elif n.op == "poly":
            st.extend(children(n))


def candidates(L, ps):
    info = LOOPS[L]
    ps = [p for p in ps if p.args[0] == L and not any(x.op == "undef" for x in info.phis[p])]
    out = []
    if not ps:
        return out
    k = iterk(L)
    v = [p for p in info.phis if p.shape == () and is_int(p) and not info.names.get(p, "").startswith("$")]
    # counters that run on from the enclosing loops
    w = []
    a = info.parent
    while a is not None and a in LOOPS:
        w += [add(p, k) for p in LOOPS[a].phis if p.shape == () and is_int(p) and not LOOPS[a].names.get(p, "").startswith("$")]
        w += [add(iterk(a), k)]
        a = LOOPS[a].parent
    for p in ps:
        out.append(le(ZERO, p))
        for q in v + [k] + w:
            if q is not p:
                out += [lt(p, q), le(p, q)]
    return [c for c in out if c not in (TRUE, FALSE)]


def at_exit(L, c):
    m = {p: fin(L, p) for p in LOOPS[L].phis}
    m[iterk(L)] = fin(L, iterk(L))
    return subst(c, m)


def earlier(C, *ts):
    """The relations for the loops whose results occur in the terms (these have been left before)."""
    ls = {n.args[0] for t in ts for n in nodes(t) if n.op == "fin"}
    return [at_exit(l, c) for l in sorted(ls) for c in C.get(l, ())]


def infer(terms):
    """loop -> relations that hold whenever it is entered or passed, for the indices in the terms."""
    ps = index_vars(terms)
    C = {L: candidates(L, ps) for L in sorted({p.args[0] for p in ps})}
    C = {L: c for L, c in C.items() if c}
    for _ in range(8):
        changed = False
        for L in sorted(C):
            info = LOOPS[L]
            up = []
            a = info.parent
            while a is not None and a in LOOPS:
                up += C.get(a, [])
                a = LOOPS[a].parent
            k = iterk(L)
            mi = {p: x[0] for p, x in info.phis.items()}
            mi[k] = ZERO
            mn = {p: x[1] for p, x in info.phis.items()}
            mn[k] = add(k, ONE)
            F0 = list(info.pc) + up
            F1 = list(info.body_pc) + list(info.end_pc) + [info.back] + up + C[L] + [le(ZERO, k)]
            for c in list(C[L]):
                ci, cn = subst(c, mi), subst(c, mn)
                ok = holds(ci, F0 + earlier(C, ci)) and holds(cn, F1 + earlier(C, cn))
                if not ok:
                    changed = True
                    # the others are decided without it
                    C[L] = [x for x in C[L] if x is not c]
                    F1 = list(info.body_pc) + list(info.end_pc) + [info.back] + up + C[L] + [le(ZERO, k)]
        if not changed:
            return C
    return {}


def holds(c, F, d=12):
    """c on all branches."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    f = facts(F)
    if f.contradictory or FALSE in f.lits or decide(c, f) is True:
        return True
    if d <= 0:
        return False
    i = None
    st = [c]
    seen = set()
    while st and i is None:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "ite" and t.shape == ():
            i = t
        elif t.op in ("le", "lt", "eq", "poly", "not", "and", "or", "min"):
            st.extend(children(t))
    if i is None:
        return False
    l = i.args[0]
    v = decide(l, f)
    if v is not None:
        return holds(subst(c, {i: i.args[1] if v else i.args[2]}), F, d - 1)
    return holds(subst(c, {i: i.args[1]}), list(F) + [l], d - 1) and holds(subst(c, {i: i.args[2]}), list(F) + [bnot(l)], d - 1)


def values(terms, P):
    """Loop variables that are always the entry of a table another loop variable selects; added to the
    relations the prover knows."""
    ls = {}
    for t in terms:
        for n in nodes(t):
            if n.op in ("phi", "fin") and n.args[0] in LOOPS:
                ls[n.args[0]] = 1
                a = LOOPS[n.args[0]].parent
                while a is not None and a in LOOPS:
                    ls[a] = 1
                    a = LOOPS[a].parent
    from .prove import eqg

    ps = index_vars(terms)
    for L in sorted(ls):
        ph = LOOPS[L].phis
        named = [p for p in ph if not LOOPS[L].names.get(p, "").startswith("$")]
        for f in named:
            if f.shape != () or not is_numeric(f) or is_int(f) or ph[f][0].op == "undef":
                continue
            for t in named:
                if t.shape is None or len(t.shape) != 1 or not is_numeric(t) or is_int(t) or ph[t][0].op == "undef":
                    continue
                for p in [p for p in ps if p.args[0] == L]:
                    a, b = ph[f][0], at(ph[t][0], 0, ph[p][0])
                    c = eq(f, at(t, 0, p))
                    if (a is not b and not P.prove(eqg(a, b), list(LOOPS[L].pc))) or c in P.ints.get(L, ()):
                        continue
                    if P.prove(eqg(f, at(t, 0, p)), list(LOOPS[L].body_pc)):
                        P.ints.setdefault(L, []).append(c)
                        e = at(t, 0, p)
                        rw = {e: f, at_exit(L, e): fin(L, f)}
                        P.rw.update({x: y for x, y in rw.items() if x.op == "at"})
                        if LOOPS[L].parent is None:
                            first(L, f, t, p, terms, P)


def first(L, f, t, p, terms, P):
    """A minimum that is looked up afterwards and has been tracked: the first row with the smallest value."""
    from .prove import Hyp, counts_of, leg, true

    T_, p_ = fin(L, t), fin(L, p)
    a = argmin(T_)
    if not any(a is n for x in terms for n in nodes(x)):
        return
    body = list(LOOPS[L].body_pc)
    j = fresh("j")
    hyps = []
    for c in counts_of(L, [t]):
        if P.prove(leg(f, at(t, 0, j)), body + [le(ZERO, j), lt(j, c)]):
            hyps.append(Hyp(leg(f, at(t, 0, j)), (j,), (lt(j, c),)))
    n = t.shape[0]
    if P.prove(leg(fin(L, f), at(T_, 0, j)), [le(ZERO, j), lt(j, n)]) and \
            P.prove(true(lt(fin(L, f), at(T_, 0, j))), [le(ZERO, j), lt(j, p_)] , hyps):
        P.rw[a] = p_
