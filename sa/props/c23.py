"""C23 NA resamples around the best models of its whole archive."""
from .. import terms
from ..order import decide
from .extract import *
from .c14 import index_of, box_lo, box_hi
from .c21 import base_draw
from .c25 import simplify

EXPLANATION = ("From the state equations of NA's iteration: the points evaluated must be the rows of the table filled by the resampling "
               "walk, mapped from the unit cube onto the bounds; the archive of models must be extended, in one and the same order, by "
               "exactly these rows and by their own objective values, starting from the initial population and its values. Each walk "
               "must start at the archive row number argsort(archive values)[i mod nr] with nr = max(1, int(nrperc * popsize)), and each "
               "of its coordinates must be low + (high - low) * u with a uniform number drawn for it, where 0 <= low <= current "
               "position <= high <= 1 is proved from the masks that select the cell boundaries. Instances: rows, tables, intervals.")
MINIMUM = 10


def check(rep, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    terms.EXPAND_LIMIT = terms.POWER_LIMIT = 400
    r = start(rep, "na", opts)
    evs = [e for e in after_import(r) if e.kind == "eval"]
    if len(evs) < 2:
        rep.undecided("candidates are evaluated", (r.entry, 0, r.entry))
        return
    e0, e = evs[0], evs[1]
    j, k = fresh("j"), index_of(e)
    lo, hi = box_lo(r, j), box_hi(r, j)
    F = list(e.pc) + [le(ZERO, j), lt(j, C.NDIM), lt(lo, hi), le(ZERO, k), lt(k, C.POP)]
    g = simplify(at(e.x, 0, j), F)
    rule = "the points evaluated are the resampled ones"
    W = [n for n in nodes(g) if n.op == "at" and n.args[2] is j and n.args[0].op == "at" and n.args[0].args[2] is k
         and n.args[0].args[0].op == "fin"]
    W = [n for n in set(W) if sub(g, add(lo, mul(sub(hi, lo), n))) is ZERO]
    if len(W) != 1:
        rep.fail(rule, e, "coordinate j of the point evaluated is %s" % show(g, 6)[:500])
        return
    rep.ok(rule, e)
    T = W[0].args[0].args[0]
    Lw, p = IN.LOOPS[T.args[0]], T.args[1]
    main = IN.LOOPS.get(Lw.parent)
    if main is None:
        rep.undecided("the resampling is part of an iteration", e)
        return
    A, V = archive(rep, r, e0, e, main, T, j, F)
    if A is not None:
        walk(rep, r, e, main, Lw, p, A, V, F)


def archive(rep, r, e0, e, main, T, j, F):
    w = tuple(main.src) if main.src else e
    rule = "the archive is extended by all candidates"
    cand = [(p, i, n) for p, (i, n) in main.phis.items() if n.op == "concat" and p in n.args]
    X = [c for c in cand if len(c[0].shape or ()) == 2]
    V = [c for c in cand if len(c[0].shape or ()) == 1]
    if len(X) != 1 or len(V) != 1:
        rep.fail(rule, w, "tables extended in an iteration: %s" % ", ".join("%s = %s" % (main.names[c[0]], show(c[2], 4)[:200]) for c in cand))
        return None, None
    (A, Ai, An), (B, Bi, Bn) = X[0], V[0]
    newx, newv = [[t for t in n.args if t is not q] for n, q in ((An, A), (Bn, B))]
    if len(newx) != 1 or len(newv) != 1:
        rep.fail(rule, w, show(An, 4)[:300])
        return None, None
    newx, newv = newx[0], newv[0]
    q = fresh("q")
    rep.require(at(newx, 0, q) is at(T, 0, q), rule, w, why="models %s" % show(newx, 4)[:300])
    rep.require(newx.shape and newx.shape[0] is C.POP and newv.shape and newv.shape[0] is C.POP, rule, w, why=show(newx.shape[0] if newx.shape else newx, 4))
    k = index_of(e)
    want = subst(e.value, {k: q})
    rep.require(at(newv, 0, q) is want, "every model keeps its own value", w, why="values %s" % show(at(newv, 0, q), 5)[:400])
    rep.require((An.args[0] is A) == (Bn.args[0] is B), "every model keeps its own value", w, why="models and values in different order")
    # initial population
    j2, k0 = fresh("j"), index_of(e0)
    lo, hi = box_lo(r, j2), box_hi(r, j2)
    F0 = list(e0.pc) + [le(ZERO, j2), lt(j2, C.NDIM), lt(lo, hi)]
    unit = simplify(at(at(Ai, 0, k0), 0, j2), F0)
    pt0 = simplify(at(e0.x, 0, j2), F0)
    d = PR.clear_denominators(sub(pt0, add(lo, mul(sub(hi, lo), unit))), IN.facts(F0))
    rep.require(d is ZERO, "the archive starts with the initial population", w, why="row %s, evaluated %s" % (show(unit, 5)[:300], show(pt0, 5)[:300]))
    v0 = at(Bi, 0, q)
    rep.require(v0 is subst(e0.value, {k0: q}), "the archive starts with the values of the initial population", w, why=show(v0, 5)[:300])
    return A, B


def walk(rep, r, e, main, Lw, p, A, V, F):
    w = tuple(Lw.src) if Lw.src else e
    i = iterk(Lw.id)
    rule = "candidates start from the best models in rotation"
    init, nxt = Lw.phis[p]
    count = Lw.count
    rep.require(count is C.POP, "one walk per candidate", w, why="%s walks" % (show(count, 4) if count is not None else "?"))
    if nxt.op != "fin" or nxt.args[0] not in IN.LOOPS:
        rep.undecided(rule, w, "candidate table becomes %s" % show(nxt, 4)[:300])
        return
    Lj = IN.LOOPS[nxt.args[0]]
    x = nxt.args[1]
    xi, xn = Lj.phis[x]
    j = iterk(Lj.id)
    rep.require(Lj.count is C.NDIM, "one step per coordinate", w, why="%s steps" % (show(Lj.count, 4) if Lj.count is not None else "?"))
    row = at(xi, 0, i)
    nr = max_(ONE, fn("int", mul(C.POP, r.params["nrperc"])))
    good = row.op == "at" and row.args[0] is A and row.args[1] == 0
    if not rep.require(good, rule, w, why="walk %s starts at %s" % (show(i), show(row, 6)[:400])):
        return
    ix = row.args[2]
    want = at(mk("argsort", (V,), V.shape), 0, fn_mod(i, nr))
    good = ix is want
    if not good and ix.op == "at" and ix.args[0].op == "argsort" and ix.args[0].args[0] is V:
        # which place of the ranking
        from .c21 import same_value
        G = [le(ZERO, i), lt(i, C.POP), le(num(2), C.POP)]
        a, b = ix.args[2], fn_mod(i, nr)
        good = same_value(a, b, G)
        part = mul(C.POP, r.params["nrperc"])
        if not good and decide(lt(ZERO, part), IN.facts(list(F) + G)) is True:
            # the number of best models rounds to none, or to one at least
            z, n = fresh("n"), fn("int", part)
            good = all(same_value(subst(a, {n: v}), subst(b, {n: v}), G + f) for v, f in ((ZERO, []), (z, [le(ONE, z)])))
    rep.require(good, rule, w, why="archive row %s" % show(ix, 7)[:400])
    # ---- coordinates
    lo, hi = box_lo(r, j), box_hi(r, j)
    wj = tuple(Lj.src) if Lj.src else w
    cur = at(at(x, 0, i), 0, j)
    G = [le(ZERO, j), lt(j, C.NDIM), lt(lo, hi), le(ZERO, i), lt(i, C.POP), le(num(2), C.POP), le(ONE, C.NDIM)]
    new = simplify(at(at(xn, 0, i), 0, j), G)
    rule = "a coordinate is drawn uniformly from an interval"
    us = []
    if new.op == "poly":
        us = list({a for c, mono in new.args for a, pw in mono if a.shape == () and base_draw(a) is not None and base_draw(a).args[0] == "u01"})
    if len(us) != 1:
        rep.fail(rule, wj, "it becomes %s" % show(new, 5)[:500])
        return
    u = us[0]
    low, high = subst(new, {u: ZERO}), subst(new, {u: ONE})
    lin = add(low, mul(sub(high, low), u))
    if not rep.require(lin is new and not depends(low, u), rule, wj, why="it becomes %s" % show(new, 5)[:500]):
        return
    D = base_draw(u)
    own = any(n.op in ("phi", "iter") and n.args[0] == Lj.id for n in list(nodes(D.args[3])) + (list(nodes(u.args[2])) if u.op == "at" else []))
    rep.require(own, "every coordinate has its own uniform number", wj, why=show(u, 4))
    low, high, fs = picked([low, high])
    G = G + fs + [le(ZERO, cur), le(cur, ONE)]
    for goal, name in ((le(ZERO, low), "the interval lies inside the bounds"), (le(high, ONE), "the interval lies inside the bounds"),
                       (le(low, cur), "the interval contains the current position"), (le(cur, high), "the interval contains the current position")):
        rep.prove(true(goal), G, name, wj)
    # ---- the rest stays
    a, b = fresh("i"), fresh("j")
    H = [le(ZERO, a), lt(a, C.POP), le(ZERO, b), lt(b, C.NDIM), bnot(eq(a, i))]
    n = at(at(xn, 0, a), 0, b)
    rep.prove(eqg(n, at(at(x, 0, a), 0, b)), H, "other candidates stay", wj)
    n = at(at(xi, 0, a), 0, b)
    rep.prove(eqg(n, at(at(p, 0, a), 0, b)), H, "other candidates stay", wj)
    n = at(at(xn, 0, i), 0, b)
    rep.prove(eqg(n, at(at(x, 0, i), 0, b)), H[2:4] + [bnot(eq(b, j))], "other coordinates stay", wj)


def fn_mod(a, b):
    return fn("mod", a, b)



def picked(ts):
    """Entries of masked arrays replaced by entries of the arrays at a place where the mask holds."""
    m, fs, places = {}, [], {}
    for t in ts:
        for n in nodes(t):
            if n.op == "at" and n.args[0].op == "msel" and n.args[1] == 0:
                B, mask = n.args[0].args
                key = (mask, n.args[2])
                if key not in places:
                    q = places[key] = fresh("q")
                    fs.append(at(mask, 0, q))
                    fs.append(le(ZERO, q))
                m[n] = at(B, 0, places[key])
    out = [subst(t, m) for t in ts]
    return out[0], out[1], fs


def tasks(tier):
    out = [("na/default", check, ({}, "default"))]
    out.append(("na/x0", check, (dict(x0=S.x0pop), "x0")))
    out.append(("na/callback", check, (dict(callback=S.cb), "callback")))
    out.append(("na/history", check, (dict(callback=S.cb, return_all=TRUE), "history")))
    out.append(("na/history-x0", check, (dict(return_all=TRUE, x0=S.x0pop), "history-x0")))
    out.append(("na/threading", check, (dict(workers=S.WORKERS, backend=const("threading")), "threading")))
    out.append(("na/seed", check, (dict(seed=C.SEED, callback=S.cb), "seed")))
    return out
