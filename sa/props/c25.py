"""C25 Initial populations are Latin hypercube designs inside the bounds."""
from .extract import *
from .c14 import box_lo, box_hi, index_of

EXPLANATION = ("The point of the first objective call of a run without initial guess is taken coordinate by coordinate as a value "
               "term. It must be an affine image of the unit interval onto the bounds of that coordinate; popsize times its unit "
               "coordinate must be the entry of a permutation of range(popsize) belonging to this individual (either direction) "
               "plus an offset in [0, 1) proved by interval arithmetic; and the permutation must be drawn from a generator state "
               "that changes with the coordinate. Instances: population methods, updating modes and constraints.")
MINIMUM = 40


def simplify(t, F):
    """t with the joins decided by the facts resolved."""
    from ..order import decide, facts

    f = facts(list(F))
    for _ in range(6):
        m = {}
        for n in nodes(t):
            if n.op == "ite":
                d = decide(n.args[0], f)
                if d is not None:
                    m[n] = n.args[1] if d else n.args[2]
                    continue
                for l in n.args[0].args if n.args[0].op in ("and", "or") else ():
                    d = decide(l, f)
                    if d is not None:
                        m[l] = TRUE if d else FALSE
        if not m:
            return t
        t = subst(t, m)
    return t


def check(rep, m, opts, name):
    r = start(rep, m, opts)
    evs = [e for e in after_import(r) if e.kind == "eval"]
    if not evs:
        rep.undecided("the objective is called", (r.entry, 0, r.entry))
        return
    e = evs[0]
    rule1 = "unit design mapped onto the bounds of the coordinate"
    j = fresh("j")
    lo, hi = box_lo(r, j), box_hi(r, j)
    F = list(e.pc) + [le(ZERO, j), lt(j, C.NDIM), lt(lo, hi)]
    g = simplify(at(e.x, 0, j), F)
    t = subst(g, {lo: ZERO, hi: ONE})
    # coordinates other than the bounds may stay
    d = PR.clear_denominators(sub(g, add(lo, mul(sub(hi, lo), t))), IN.facts(F))
    if not rep.require(d is ZERO, rule1, e, why="coordinate j of the first point is %s" % show(g, 6)[:500]):
        return
    s = mul(C.POP, t)
    perms = [n for n in nodes(s) if n.op == "at" and n.args[0].op == "rnd" and n.args[0].args[0] == "perm" or
             n.op == "at" and n.args[0].op == "rperm" or
             n.op == "at" and n.args[0].op == "argsort" and any(x.op == "rnd" for x in nodes(n.args[0]))]
    own = [p for p in perms if sub(s, p) is not None and not depends(drop_index(sub(s, p)), p)]
    rule2 = "each individual takes its own slice"
    cand = []
    for p in own:
        for sg in (ONE, num(-1)):
            v = sub(s, mul(sg, p)) if sg is ONE else sub(add(s, p), sub(C.POP, ONE))
            v = open_offsets(v, F)
            if v is not None:
                cand.append((p, v))
    if not cand:
        rep.fail(rule2, e, "popsize times the unit coordinate is %s: not a permutation entry plus an offset in [0, 1)" % show(s, 6)[:500])
        return
    p, v = cand[0]
    rep.ok(rule2, e, "slice %s, offset %s" % (show(p, 4), show(v, 4)))
    idx, P = p.args[2], p.args[0]
    k = index_of(e)
    if "mpi" in name:
        from ..models import mpi_syms

        rank, size = mpi_syms()
        k = add(rank, mul2(size, k))
    rep.require(idx is k or idx is sub(sub(C.POP, ONE), k), "one permutation entry per individual", e, why="entry %s" % show(idx, 5))
    n = P.shape[0] if P.shape else None
    rep.require(n is C.POP, "the permutation is of the whole population", e, why=show(P, 4)[:200])
    rep.require(depends(P, j), "an independent permutation for each coordinate", e, why="the same draw %s for every coordinate" % show(P, 5)[:300])
    us = [x for x in nodes(v) if x.op == "rnd"]
    rep.require(not any(u.args[3] is state(P) for u in us), "offsets are drawn apart from the permutations", e)


def state(P):
    for a in reversed(P.args):
        if isinstance(a, T) and a.op in ("adv", "advk", "seeded", "phi", "stv", "world", "entropy", "ite"):
            return a
    return None


def drop_index(t):
    """t with the elements of arrays of draws named afresh: where a draw is read does not matter."""
    m = {}
    for n in nodes(t):
        if n.op == "at" and uniform_base(n) is not None:
            m[n] = sym("draw%d" % len(m), (), ZERO, ONE)
    return subst(t, m)


def uniform_base(n):
    while n.op == "at":
        n = n.args[0]
    return n if n.op == "rnd" and n.args[0] == "u01" else None


def open_offsets(v, F):
    """v when it lies in [0, 1] for uniform numbers in [0, 1)."""
    m = {}
    for n in nodes(v):
        if n.shape == () and n.op == "at" and uniform_base(n) is not None:
            m[n] = sym("draw%d" % len(m), (), ZERO, ONE)
    w = subst(v, m)
    if any(n.op in ("rnd", "rperm") for n in nodes(w)):
        return None
    from ..order import decide, facts

    f = facts(list(F) + [le(ONE, C.POP)])
    if decide(le(ZERO, w), f) is True and decide(le(w, ONE), f) is True:
        return v
    return None


def tasks(tier):
    out = []
    for m in S.POPULATION:
        for n, o in S.configs(m, tier).items():
            if "x0" not in o:
                out.append(("%s/%s" % (m, n), check, (m, o, n)))
    return out
