"""C22 particles move by the PSO rule and restarts spare the best."""
from itertools import permutations

from .. import terms
from .extract import *
from .c14 import index_of, box_lo, box_hi
from .c21 import base_draw, best_known, is_resample, same_value
from .c25 import simplify

EXPLANATION = ("The point of every evaluation after the initial one is taken coordinate by coordinate as a polynomial over the state "
               "tables of the enclosing loops and the random draws. Some assignment of the roles position, velocity, own best, best "
               "known point and two different uniform numbers of this iteration, particle and coordinate must make it identical to "
               "X + B*(inertia*V + cognitivity*r1*(own best - X) + sociability*r2*(best - X)), with B = 1 in unconstrained mode and B "
               "a scalar of the particle otherwise. From the state equations: the row of X becomes the evaluated point, the row of V "
               "the step taken, the own best and its value follow the comparison, other rows stay; every deviation from this is a "
               "restart, which needs competitivity, only happens to particles above a cutoff in the ranking of the own best values, "
               "never to the first of the ranking, and re-draws the position uniformly in the bounds with zero velocity, own best at "
               "the new position and value inf. Instances: tables, rows and roles per configuration.")
MINIMUM = 40


def check(rep, m, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    terms.EXPAND_LIMIT = terms.POWER_LIMIT = 400
    r = start(rep, m, opts)
    evs = [e for e in after_import(r) if e.kind == "eval"][1:]
    if not evs:
        rep.undecided("particles are evaluated", (r.entry, 0, r.entry))
    for e in evs:
        particle(rep, r, e, m, opts)


def vec(t, *idx):
    for i in idx:
        t = at(t, 0, i)
    return t


def tables(g, k, j):
    """Tables whose entry [k][j] occurs, and vectors whose entry [j] does."""
    T, B = [], []
    for n in nodes(g):
        if n.op != "at" or n.args[2] is not j or n.shape != ():
            continue
        a = n.args[0]
        if a.op == "at" and a.args[2] is k and a.args[0].op in ("phi", "fin"):
            if a.args[0] not in T:
                T.append(a.args[0])
        elif a.op in ("phi", "fin") and a.shape is not None and len(a.shape) == 1 and a not in B:
            B.append(a)
    return T, B


def scalar_factors(d, j):
    """Atoms in every monomial of d, to the power one, that are no function of the coordinate."""
    if d.op != "poly":
        return []
    sets = []
    for c, mono in d.args:
        sets.append({a for a, x in mono if x == 1 and not depends(a, j)})
    return [a for a in set.intersection(*sets)] if sets else []


def roles(r, g, k, j, constrained):
    """(X, V, PB, GB, u1, u2, B) that explain the coordinate g."""
    w, c1, c2 = (r.params[x] for x in ("inertia", "cognitivity", "sociability"))
    T, GB = tables(g, k, j)
    us = [n for n in set(nodes(g)) if n.shape == () and base_draw(n) is not None and base_draw(n).args[0] == "u01" and depends(n, j)]
    for X in T:
        d = sub(g, vec(X, k, j))
        for B in [ONE] + (scalar_factors(d, j) if constrained else []):
            if B in (w, c1, c2):
                continue
            s = d if B is ONE else subst(d, {B: ONE})
            for V, PB in permutations([t for t in T if t is not X], 2):
                for gb in GB:
                    for u1, u2 in permutations(us, 2):
                        x = vec(X, k, j)
                        rule = add(mul(w, vec(V, k, j)), add(mul(c1, mul(u1, sub(vec(PB, k, j), x))), mul(c2, mul(u2, sub(vec(gb, j), x)))))
                        if s is rule:
                            return X, V, PB, gb, u1, u2, B
    return None


def particle(rep, r, e, m, opts):
    j, k = fresh("j"), index_of(e)
    g = vec(e.x, j)
    constrained = opts.get("constraints") is not None and opts["constraints"] is not NONE
    rule = "a particle moves by inertia, own best and best known point"
    T, GB = tables(g, k, j)
    if not T:
        rep.undecided(rule, e, "coordinate %s" % show(g, 6)[:500])
        return
    f = roles(r, g, k, j, constrained)
    if f is None:
        rep.fail(rule, e, "coordinate j of the point evaluated is %s" % show(g, 5)[:900])
        return
    X, V, PB, gb, u1, u2, B = f
    rep.ok(rule, e, "X = %s, V = %s, own best = %s, best = %s" % tuple(show(t, 3) for t in (X, V, PB, gb)))
    rep.require(base_draw(u1) is not base_draw(u2) or u1.args[0] is not u2.args[0], "two different uniform numbers", e, why=show(u1, 4))
    if X.op != "phi" or any(t.op != "phi" or t.args[0] != X.args[0] for t in (V, PB)):
        rep.undecided("the tables are carried by one loop", e, "%s, %s, %s" % tuple(show(t, 3) for t in (X, V, PB)))
        return
    L = IN.LOOPS[X.args[0]]
    immediate = iterk(L.id) is k
    outer = IN.LOOPS.get(L.parent) if immediate else L
    for u in (u1, u2):
        idx, n = [], u
        while n.op == "at":
            idx.append(n.args[2])
            n = n.args[0]
        lits = [x for i in idx for x in nodes(i)] + list(nodes(n.args[3]))
        rep.require(j in idx, "a uniform number of every coordinate", e, why="%s is shared by the coordinates" % show(u, 5)[:200])
        rep.require(k in lits, "a uniform number of every particle", e, why="%s is shared by the particles" % show(u, 5)[:200])
        it = outer.id if outer is not None else L.id
        rep.require(any(x.op in ("phi", "iter") and x.args[0] == it for x in lits) or immediate and depends(n, k),
                    "a uniform number of every iteration", e, why="%s is drawn before the iterations" % show(u, 5)[:200])
    best_known(rep, r, e, vec(gb, j), j, X)
    # ---- rows after the step
    q = k if immediate else fresh("q")
    s = (lambda t: t) if immediate else (lambda t: subst(t, {k: q}))
    F = list(e.pc) + [le(ZERO, q), lt(q, C.POP), le(ZERO, j), lt(j, C.NDIM), le(num(2), C.POP)]
    o, gx = s(e.value), s(g)
    PF, dec = own_value(L, PB, q, o, F)
    if PF is None:
        rep.fail("the own best follows the comparison with the own best value", e, "it becomes %s" % show(vec(L.phis[PB][1], q), 6)[:500])
        return
    want = {X: gx, V: sub(gx, vec(X, q, j)), PB: ite(dec, gx, vec(PB, q, j)), PF: ite(dec, o, vec(PF, q))}
    what = {X: "the position becomes the point evaluated", V: "the velocity becomes the step taken",
            PB: "the own best follows the comparison", PF: "the own best value follows the comparison"}
    if immediate:
        i = fresh("i")
        G = F + [bnot(eq(i, k)), le(ZERO, i), lt(i, C.POP)]
        for t in want:
            n = L.phis[t][1]
            a = (j,) if len(t.shape) == 2 else ()
            equal(rep, vec(n, k, *a), want[t], F, what[t], e)
            rep.prove(eqg(vec(n, i, *a), vec(t, i, *a)), G, "other particles stay", e)
        if outer is None:
            rep.undecided("iterations enclose the swarm loop", e)
            return
        up = {}
        for t in want:
            # the variable of the enclosing loop that enters this one
            p = L.phis[t][0]
            if p not in outer.phis:
                rep.undecided("the tables pass from iteration to iteration", e, "%s starts at %s" % (L.names[t], show(p, 4)[:200]))
                return
            up[t] = p
        q = fresh("q")
        F = [le(ZERO, q), lt(q, C.POP), le(ZERO, j), lt(j, C.NDIM), le(num(2), C.POP)]
        want = {t: vec(fin(L.id, t), q, *((j,) if len(t.shape) == 2 else ())) for t in want}
    else:
        up = {t: t for t in want}
    restarts(rep, r, e, outer, up, want, (X, V, PB, PF), q, j, F, m, opts)


def own_value(L, PB, q, o, F):
    """Table of the own best values and the condition of a new own best."""
    row = vec(L.phis[PB][1], q)
    for n in nodes(row):
        if n.op not in ("lt", "le"):
            continue
        for p in L.phis:
            if p.shape is not None and len(p.shape) == 1 and p.shape[0] is PB.shape[0]:
                for c in (n, bnot(n)):
                    d = sub(o, vec(p, q))
                    if c in (lt(d, ZERO), le(d, ZERO)):
                        return p, c
    return None, None


def equal(rep, t, want, F, rule, w):
    if t is want:
        return rep.ok(rule, w) or True
    t2 = simplify(t, F)
    if t2 is want or same_value(t2, want, F):
        rep.ok(rule, w)
        return True
    rep.fail(rule, w, "%s instead of %s" % (show(t2, 5)[:400], show(want, 5)[:300]))
    return False


def restarts(rep, r, e, L, up, want, roles_, q, j, F, m, opts):
    X, V, PB, PF = roles_
    w = tuple(L.src) if L.src else e
    row = {t: simplify(vec(L.phis[up[t]][1], q, *((j,) if len(t.shape) == 2 else ())), F) for t in want}
    lv = leaves(row[V])
    own = [c for c, v in lv if v is want[V]]
    if not own:
        # decided by its velocity alone whether a particle has been restarted
        rep.fail("the velocity becomes the step taken", w, "it becomes %s" % show(row[V], 5)[:500])
        return
    other = [(c, v) for c, v in lv if v is not want[V]]
    gamma = r.params.get("competitivity")
    may = m == "cpso" and not (gamma is None or gamma is NONE)
    names = {X: "positions", V: "velocities", PB: "own bests", PF: "own best values"}
    if not other:
        for t in want:
            equal(rep, row[t], want[t], F, "%s are not altered otherwise" % names[t], w)
        return
    if not may:
        rep.fail("restarts only with competitivity", w, "velocity %s" % "; ".join(show(v, 4)[:200] for c, v in other))
        return
    R = bor(*[band(*c) for c, v in other])
    off = simplify(subst(R, {gamma: ZERO}), F)
    rep.require(off is FALSE or IN.decide(off, IN.facts(F)) is False, "restarts only with competitivity", w, why=show(R, 4)[:400])
    lo, hi = box_lo(r, j), box_hi(r, j)
    FR = F + [R]
    for c, v in other:
        rep.require(v is ZERO, "a restarted particle stands still", w, why="velocity %s" % show(v, 5)[:300])
    cs = [tuple(c) for c, v in other]
    news = []
    for c in cs:
        for d, v in leaves(row[X], c):
            good = is_resample(v, lo, hi)
            rep.require(good, "a restarted particle is uniform in the bounds", w, why="position %s" % show(v, 5)[:400])
            if good:
                u = [a for c2, mono in v.args for a, x in mono if a.shape == () and base_draw(a) is not None][0]
                idx = []
                while u.op == "at":
                    idx.append(u.args[2])
                    u = u.args[0]
                rep.require(any(depends(x, q) for x in idx) or depends(u, q), "every restarted particle has its own position", w, why=show(v, 5)[:300])
                rep.require(any(depends(x, j) for x in idx), "coordinates of a restarted particle are independent", w, why=show(v, 5)[:300])
                news.append(v)
        for d, v in leaves(row[PF], c):
            rep.require(v.op == "inf", "the own best of a restarted particle is forgotten", w, why="its value becomes %s" % show(v, 5)[:300])
        b = given(row[PB], c)
        x = given(row[X], c)
        ok = b is x or all(v in news for d, v in leaves(b)) or same_value(b, x, FR)
        rep.require(ok, "the own best of a restarted particle is its new position", w, why=show(b, 5)[:400])
    for t in want:
        n = given(row[t], (bnot(R),))
        vals = [v for c, v in leaves(n, (bnot(R),))]
        ok = n is want[t] or all(v is want[t] for v in vals) or same_value(row[t], want[t], F + [bnot(R)])
        rep.require(ok, "%s are not altered otherwise" % names[t], w, why=show(n, 5)[:500])
    # ---- which ones
    rk = [n for n in nodes(R) if n.op == "rankof" and n.args[0] is q]
    rule = "restarts take the worst of the own bests"
    if len(set(rk)) != 1:
        rep.fail(rule, w, "restarted when %s" % show(R, 5)[:500])
        return
    rk = rk[0]
    A = rk.args[1]
    i = fresh("i")
    key = at(A.args[0], 0, i) if A.op == "argsort" else None
    now = subst(simplify(vec(L.phis[up[PF]][1], i), F + [bnot(R)]), {})
    base = subst(want[PF], {q: i})
    good = key is not None and (key is base or same_value(key, base, [subst(x, {q: i}) for x in F]))
    rep.require(good, rule, w, why="ranked by %s" % show(A, 5)[:300])
    a, b = fresh("i"), fresh("i")
    from ..prove import Prover

    Ra, Rb = subst(R, {rk: a}), subst(R, {rk: b})
    if depends(Ra, q):
        rep.fail(rule, w, "restarted when %s" % show(R, 5)[:500])
        return
    n1 = sub(C.POP, ONE)
    up_ = Prover().prove(true(Rb), [le(num(2), C.POP), Ra, le(a, b), le(b, n1), le(ZERO, a)], ())
    rep.require(bool(up_), rule, w, why="restarted when %s" % show(R, 6)[:500])
    z = simplify(subst(R, {rk: ZERO}), F)
    no = Prover().prove(true(bnot(z)), [le(num(2), C.POP)], ())
    rep.require(bool(no), "the best own best is never restarted", w, why="restarted when %s" % show(z, 7)[:500])


def tasks(tier):
    out = []
    for m in ("pso", "cpso"):
        for u in ("immediate", "deferred"):
            for cn in (None, "Shrink"):
                o = dict(updating=const(u), callback=S.cb)
                if cn:
                    o["constraints"] = const(cn)
                out.append(("%s/%s%s" % (m, u, "-shrink" if cn else ""), check, (m, o, u)))
                if m == "cpso":
                    out.append(("%s/%s%s-nogamma" % (m, u, "-shrink" if cn else ""), check, (m, dict(o, competitivity=NONE), u)))
            out.append(("%s/%s-x0" % (m, u), check, (m, dict(updating=const(u), x0=S.x0pop), u)))
            out.append(("%s/%s-history" % (m, u), check, (m, dict(updating=const(u), return_all=TRUE, callback=S.cb), u)))
        out.append(("%s/default" % m, check, (m, {}, "default")))
        out.append(("%s/threading" % m, check, (m, dict(workers=S.WORKERS, backend=const("threading")), "threading")))
    return out
