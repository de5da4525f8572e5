"""C21 DE trial vectors follow the selected strategy."""
from .. import terms
from .extract import *
from .c14 import box_lo, box_hi, index_of
from .c25 import simplify

EXPLANATION = ("The point of every trial evaluation of DE is taken coordinate by coordinate as a value term and split into its "
               "branches: apart from the resampling of the 'Random' constraint it must be the own individual's coordinate or the "
               "mutant's, and the condition of the mutant must be 'a uniform number of this individual and coordinate is below "
               "recombination, or the coordinate is this individual's random one'. The mutant must be the linear combination of "
               "the selected strategy over different entries of one draw without replacement from the population without the own "
               "index. The update of the population row and of its value is proved to follow the comparison of trial and own "
               "value. Instances: strategies, updating modes, constraints.")
MINIMUM = 20

# coefficients of: best, then individuals (1, F, -F)
WANT = {"rand1bin": (0, 1, 1, 1), "rand2bin": (0, 1, 2, 2), "best1bin": (1, 0, 1, 1), "best2bin": (1, 0, 2, 2)}


def elements(t, j):
    """Rows read in the coordinate term t: (table, row index)."""
    out = []
    for n in nodes(t):
        if n.op == "at" and n.args[2] is j and n.args[0].op == "at" and n.args[0].args[0].shape is not None \
                and len(n.args[0].args[0].shape) == 2:
            out.append(n)
    return out


def population(g, j, k):
    """(P, own coordinate) of the trial coordinate g."""
    for c, v in leaves(g):
        if v.op == "at" and v.args[2] is j and v.args[0].op == "at" and v.args[0].args[2] is k and v.args[0].args[0].op == "phi":
            return v.args[0].args[0], v
    return None, None


def check(rep, m, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    terms.EXPAND_LIMIT = terms.POWER_LIMIT = 400
    r = start(rep, m, opts)
    evs = [e for e in after_import(r) if e.kind == "eval"][1:]
    if not evs:
        rep.undecided("trials are evaluated", (r.entry, 0, r.entry))
    for e in evs:
        trial(rep, r, e, opts)


def trial(rep, r, e, opts):
    j = fresh("j")
    k = index_of(e)
    g = at(e.x, 0, j)
    lo, hi = box_lo(r, j), box_hi(r, j)
    P, own = population(g, j, k)
    rule = "a trial mixes the own individual and a mutant"
    if P is None:
        # is there any population at all?
        tabs = {n.args[0].args[0] for n in elements(g, j)}
        if tabs:
            rep.fail(rule, e, "coordinate of the trial: %s" % show(g, 6)[:500])
        else:
            rep.undecided(rule, e, "coordinate of the trial: %s" % show(g, 6)[:500])
        return
    ls = leaves(g)
    constrained = opts.get("constraints") is not None and opts["constraints"] is not NONE
    res = [(c, v) for c, v in ls if v is not own and is_resample(v, lo, hi)]
    rest = [(c, v) for c, v in ls if not any(v is x for _, x in res)]
    if res and not constrained:
        rep.fail("a trial mixes the own individual and a mutant", e, "coordinates are re-drawn without a constraint")
        return
    muts = []
    for c, v in rest:
        if v is not own and v not in muts:
            muts.append(v)
    if len(muts) != 1:
        rep.fail(rule, e, "the coordinate is one of %s" % "; ".join(show(v, 5)[:200] for v in muts))
        return
    rep.ok(rule, e)
    mut = muts[0]
    # ---- recombination
    A = g
    for c, v in res:
        A = drop(A, v)
    la = leaves(A)
    cross = cond_of(la, lambda v: v is mut)
    recombination(rep, r, e, cross, j, k, mut)
    # ---- mutation
    st = cval(opts["strategy"]) if "strategy" in opts else "best1bin"
    mutation(rep, r, e, mut, P, own, j, k, st)
    selection(rep, r, e, P, k)


def drop(A, v):
    """A without the branch v."""
    m = {}
    for n in nodes(A):
        if n.op == "ite" and (n.args[1] is v or n.args[2] is v):
            m[n] = n.args[2] if n.args[1] is v else n.args[1]
    return subst(A, m) if m else A


def is_resample(v, lo, hi):
    """Uniform in the bounds."""
    if v.op != "poly":
        return False
    us = list({a for c, mono in v.args for a, x in mono if a.shape == () and base_draw(a) is not None})
    return len(us) == 1 and v is add(lo, mul(sub(hi, lo), us[0]))


def base_draw(n):
    while n.op == "at":
        n = n.args[0]
    return n if n.op == "rnd" else None


def draws_of(t):
    """Scalar elements of random arrays in t."""
    out = []
    for n in nodes(t):
        if n.shape == () and base_draw(n) is not None:
            out.append(n)
    return out


def recombination(rep, r, e, cross, j, k, mut):
    rule = "a coordinate is mutated with probability recombination, one coordinate always"
    CR = r.params["recombination"]
    lits = list(cross.args) if cross.op == "or" else [cross]
    prob = [l for l in lits if l.op in ("lt", "le")]
    one = [l for l in lits if l.op == "eq"]
    text = "mutated when %s" % show(cross, 7)[:500]
    if cross.op == "and" or len(prob) != 1 or len(one) != 1 or len(lits) != 2:
        rep.fail(rule, e, text)
        return
    us = [u for u in draws_of(prob[0]) if base_draw(u).args[0] == "u01"]
    if len(us) != 1:
        rep.fail(rule, e, text)
        return
    u = us[0]
    p = prob[0].args[0]
    good = p is sub(u, CR) or p is sub(sub(ONE, u), CR)
    rep.require(good, rule, e, why=text)
    if not good:
        return
    own_number(rep, e, u, j, k, "one uniform number per individual and coordinate", True)
    ii = [d for d in draws_of(one[0]) if base_draw(d).args[0] == "randint"]
    if len(ii) != 1 or one[0] is not eq(ii[0], j):
        rep.fail(rule, e, text)
        return
    i = ii[0]
    D = base_draw(i)
    rng_ = D.args[1]
    rep.require(tuple(rng_) == (ZERO, C.NDIM), "the coordinate always taken is any of the coordinates", e, why=show(D, 4))
    own_number(rep, e, i, j, k, "one forced coordinate per individual", False)


def own_number(rep, e, u, j, k, rule, percoord):
    """The draw belongs to this individual (and coordinate)."""
    D = base_draw(u)
    idx = []
    n = u
    while n.op == "at":
        idx.append(n.args[2])
        n = n.args[0]
    fresh_k = depends(D, k)
    rep.require(k in idx or fresh_k or any(depends(x, k) for x in idx), rule, e, why="%s is shared by the individuals" % show(u, 5)[:200])
    if percoord:
        rep.require(j in idx, rule, e, why="%s is shared by the coordinates" % show(u, 5)[:200])


def mutation(rep, r, e, mut, P, own, j, k, st):
    F = r.params["mutation"]
    rule = "mutant of strategy %s" % st
    if mut.op != "poly":
        rep.fail(rule, e, "the mutant is %s" % show(mut, 6)[:400])
        return
    got = {}
    best = []
    for c, mono in mut.args:
        mono = [a for a in mono]
        els = [(a, x) for a, x in mono if not (a is F)]
        fs = [x for a, x in mono if a is F]
        if len(els) != 1 or els[0][1] != 1 or len(fs) > 1 or fs and fs[0] != 1:
            rep.fail(rule, e, "the mutant is %s" % show(mut, 6)[:400])
            return
        got.setdefault((c, bool(fs)), []).append(els[0][0])
    nb, n1, np_, nm = WANT[st]
    one, plus, minus = got.pop((1, False), []), got.pop((1, True), []), got.pop((-1, True), [])
    best = [a for a in one if a.op == "at" and a.args[0].op != "at"]
    ind = [a for a in one if a not in best]
    text = "the mutant is %s" % show(mut, 7)[:500]
    if not rep.require(not got and (len(best), len(ind), len(plus), len(minus)) == (nb, n1, np_, nm), rule, e, why=text):
        return
    for b in best:
        best_known(rep, r, e, b, j, P)
    rows = ind + plus + minus
    FA = list(e.pc) + [le(num(6), C.POP), le(ZERO, k), lt(k, C.POP)]
    rule = "individuals are different and never the own one"
    ents = []
    for a in rows:
        if not (a.op == "at" and a.args[2] is j and a.args[0].op == "at" and a.args[0].args[0] is P):
            rep.fail(rule, e, "%s is not a member of the current population" % show(a, 5)[:200])
            return
        ents.append(a.args[0].args[2])
    src = []
    for i in ents:
        d = skipping(simplify(i, FA), k)
        if d is None:
            rep.fail(rule, e, "individual %s" % show(i, 6)[:300])
            return
        src.append(d)
    arrays = {d.args[0] for d in src}
    idx = [d.args[2] for d in src]
    rep.require(len(arrays) == 1 and all(is_num(i) for i in idx) and len(set(idx)) == len(idx), rule, e,
                why="entries %s" % ", ".join(show(d, 5)[:80] for d in src))
    A = list(arrays)[0]
    okd = A.op == "rperm" or A.op == "rnd" and A.args[0] in ("choicewr",)
    n = A.args[0] if A.op == "rperm" else A.args[1][1] if A.op == "rnd" else None
    rep.require(okd and n is sub(C.POP, ONE), rule, e, why="drawn by %s" % show(A, 4)[:200])


def skipping(i, k):
    """Entry d of a draw from range(popsize - 1) such that i is d with the index k left out."""
    ds = [n for n in nodes(i) if n.op == "at" and n.shape == () and n.args[0].op in ("rperm", "rnd")]
    for d in set(ds):
        if i is ite(le(k, d), add(d, ONE), d):
            return d
    return None


def best_known(rep, r, e, b, j, P):
    rule = "best strategies start from the best solution found so far"
    B = b.args[0]
    x = r.fields().get("x")
    seen = set()
    todo = [x]
    while todo:
        t = todo.pop()
        if t is None or t in seen:
            continue
        seen.add(t)
        if t.op == "fin":
            todo.append(t.args[1])
        elif t.op == "phi" and t.args[0] in IN.LOOPS and t in IN.LOOPS[t.args[0]].phis:
            todo.extend(IN.LOOPS[t.args[0]].phis[t])
        elif t.op == "ite":
            todo.extend(t.args[1:])
    rep.require(B in seen and b.args[2] is j, rule, e, why="%s is not what the result reports as x" % show(b, 5)[:200])


def selection(rep, r, e, P, k):
    """The row of the population after the comparison."""
    rule = "a trial replaces its own individual only when it is not worse"
    L = None
    for l, Li in IN.LOOPS.items():
        if P in Li.phis:
            L = Li
    if L is None:
        rep.undecided(rule, e, "population %s" % show(P))
        return
    w = e
    nxt = L.phis[P][1]
    immediate = iterk(L.id) is k
    q = k if immediate else fresh("q")
    tr_ = e.x if immediate else subst(e.x, {k: q})
    o = e.value if immediate else subst(e.value, {k: q})
    row = at(nxt, 0, q)
    j = fresh("j")
    cur, tri = at(at(P, 0, q), 0, j), at(tr_, 0, j)
    ls = leaves(at(row, 0, j))
    # top-level decision: literals over the objective
    PF, dec = None, None
    for n in nodes(row):
        if n.op in ("lt", "le"):
            for p in L.phis:
                if p.shape is not None and len(p.shape) == 1 and p.shape[0] is P.shape[0]:
                    d = sub(o, at(p, 0, q))
                    if n in (lt(d, ZERO), le(d, ZERO)):
                        PF, dec = p, n
                    elif bnot(n) in (lt(d, ZERO), le(d, ZERO)):
                        PF, dec = p, bnot(n)
    if PF is None:
        rep.fail(rule, w, "the individual becomes %s" % show(row, 6)[:400])
        return
    F = list(e.pc) + [le(ZERO, q), lt(q, C.POP), le(ZERO, j), lt(j, C.NDIM)]
    acc = given(at(row, 0, j), (dec,))
    rej = given(at(row, 0, j), (bnot(dec),))
    ok = rep.require(acc is tri or same_value(acc, tri, F), rule, w, "an accepted trial becomes the individual", why=show(acc, 5)[:300])
    rep.require(rej is cur or same_value(rej, cur, F), rule, w, "a rejected trial leaves the individual", why=show(rej, 5)[:300])
    nf = at(L.phis[PF][1], 0, q)
    f0 = at(PF, 0, q)
    rep.prove(eqg(nf, ite(dec, o, f0)), F, "the individual's value follows", w)
    if immediate:
        i = fresh("i")
        G = F + [bnot(eq(i, k)), le(ZERO, i), lt(i, C.POP)]
        rep.prove(eqg(at(at(nxt, 0, i), 0, j), at(at(P, 0, i), 0, j)), G, "other individuals stay", w)
        rep.prove(eqg(at(L.phis[PF][1], 0, i), at(PF, 0, i)), G, "other individuals' values stay", w)


def same_value(a, b, F):
    from ..prove import Prover

    return bool(Prover().prove(eqg(a, b), list(F), ()))


def tasks(tier):
    out = []
    for u in ("immediate", "deferred"):
        for st in WANT:
            for cn in (None, "Random"):
                o = dict(strategy=const(st), updating=const(u), callback=S.cb)
                if cn:
                    o["constraints"] = const(cn)
                out.append(("de/%s-%s%s" % (st, u, "-random" if cn else ""), check, ("de", o, st)))
    out.append(("de/default", check, ("de", {}, "default")))
    out.append(("de/x0", check, ("de", dict(x0=S.x0pop), "x0")))
    out.append(("de/x0-random", check, ("de", dict(x0=S.x0pop, constraints=const("Random"), updating=const("deferred")), "x0")))
    out.append(("de/threading", check, ("de", dict(workers=S.WORKERS, backend=const("threading")), "threading")))
    return out
