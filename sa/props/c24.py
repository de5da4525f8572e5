"""C24 CMA-ES and VD-CMA recombine the best candidates; penalties are sane."""
from .. import terms
from ..order import decide, facts
from ..prove import Hyp, Goal, leg, eqg, open_boxes
from .extract import *
from .c14 import box_lo, box_hi

EXPLANATION = ("The state equation of the mean is read as a polynomial: its weights are the coefficients of the ranked candidates, and "
               "mean' - sum_b w(b) candidate(rank b) must vanish identically, with as many terms as max(1, int(muperc * popsize)), weights "
               "that sum to one identically, do not increase and end above zero (monotonicity of log), and ranks taken from the ascending "
               "order of the values the candidates were given. Penalize: value - objective must be the sum over coordinates of a weight times "
               "(repaired - sampled)^2, where the repaired coordinate equals the sampled one between the bounds, the lower bound below and the "
               "upper bound above; the weights are proved not to be negative by induction over the loop, and their update to be unchanged when "
               "mean, previous mean and bounds are reflected. Instances: loops, coefficients, update equations.")
MINIMUM = 20


def check(rep, m, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    r = start(rep, m, dict(opts, callback=S.cb))
    one = (r.entry, 0, r.entry)
    cbs = [e for e in after_import(r) if e.kind == "callback"]
    if not cbs:
        rep.undecided("generations are shown", one)
        return
    pop, d = state_of(cbs[0])
    main = [IN.LOOPS[l] for l in sorted(loops_reached([pop]))]
    k, j = fresh("k"), fresh("j")
    lo, hi = box_lo(r, j), box_hi(r, j)
    W = open_boxes(subst(open_boxes(at(at(pop, 0, k), 0, j)), {lo: num(-1), hi: ONE}))
    X = sampled(W)
    if X is None:
        rep.undecided("candidates", cbs[0], "standardised coordinate %s" % show(W, 5)[:300])
        return
    found = False
    for L in main:
        for p, (init, new) in L.phis.items():
            if p.shape == (C.NDIM,) and is_numeric(p) and depends(X, p):
                M = open_boxes(at(new, 0, j))
                order = {n for n in nodes(M) if n.op == "argsort"}
                # the mean itself: the candidates are spread around it
                rest = sub(X, at(p, 0, j))
                if depends(rest, at(p, 0, j)) or not order:
                    continue
                found = True
                w = tuple(L.src) if L.src else one
                A = mean(rep, r, L, M, X, k, j, order, w)
                if A is not None:
                    values(rep, r, L, p, A, pop, W, X, k, j, opts, w)
    if not found:
        rep.undecided("the mean moves to the best candidates", cbs[0], "no variable the candidates are spread around")


def sampled(W):
    """The coordinate before its repair."""
    out, st = set(), [W]
    while st:
        t = st.pop()
        if t.op == "ite" and any(is_num(x) for x in t.args[1:]):
            st.extend(t.args[1:])
        elif t.op == "min":
            st.extend(t.args)
        elif t.op == "poly" and len(t.args) == 1 and t.args[0][0] == -1 and len(t.args[0][1]) == 1 and t.args[0][1][0][1] == 1 and \
                t.args[0][1][0][0].op in ("min", "ite"):
            st.append(t.args[0][1][0][0])
        elif is_num(t):
            pass
        else:
            out.add(t)
    out2 = set()
    for x in out:
        if neg(x) in out2:
            continue
        out2.add(x)
    out = list(out2)
    if len(out) == 1:
        x = out[0]
        # the sign it enters by
        if W is not x and decide(le(ZERO, ONE), IN.facts([])) is True:
            F = IN.facts([lt(x, ONE), lt(num(-1), x)])
            y = PR.Prover().simp(resolve(W, F), F)
            if y is neg(x):
                return neg(x)
        return x
    return None


def resolve(t, F):
    """Smallest-of decided by the facts."""
    for _ in range(4):
        m = {}
        for n in nodes(t):
            if n.op == "min":
                for a in n.args:
                    if all(a is b or decide(le(a, b), F) is True for b in n.args):
                        m[n] = a
                        break
            elif n.op == "ite":
                d = decide(n.args[0], F)
                if d is not None:
                    m[n] = n.args[1 if d else 2]
            elif n.op in ("lt", "le", "eq"):
                d = decide(n, F)
                if d is not None:
                    m[n] = terms.TRUE if d else terms.FALSE
        if not m:
            return t
        t = subst(t, m)
    return t


# ------------------------------------------------------------------ recombination
def mean(rep, r, L, M, X, k, j, order, w):
    rule = "the mean moves to the weighted best candidates"
    b = fresh("b")
    mu = max_(ONE, fn("int", mul(C.POP, r.params["muperc"])))
    cand = None
    for A in order:
        idx = at(A, 0, b)
        R = open_boxes(subst(X, {k: idx}))
        ws = weights(M, R, idx, b)
        if ws is None:
            continue
        wt, n = ws
        cand = (A, idx, R, wt, n)
        break
    if cand is None:
        rep.fail(rule, w, "the mean becomes %s" % show(M, 5)[:500])
        return None
    A, idx, R, wt, n = cand
    rep.require(n is mu, "as many parents as muperc * popsize", w, why="sum over %s candidates" % show(n, 5)[:200])
    total = terms.redi("sum", n, b, mul(wt, R))
    dens = {a for t in (M, wt) for a in negatives(t)}
    F = IN.facts([bnot(eq(a, ZERO)) for a in dens])
    diff = PR.clear_denominators(sub(M, total), F)
    if diff is not ZERO:
        diff = PR.clear_denominators(open_boxes(diff), F)
    rep.require(diff is ZERO, rule, w, why="the mean differs from the weighted candidates by %s" % show(diff, 5)[:400])
    s = PR.clear_denominators(sub(terms.redi("sum", n, b, wt), ONE), F)
    rep.require(s is ZERO, "the weights sum to one", w, why="sum of the weights - 1 = %s" % show(s, 6)[:300])
    # numerators: the weights up to a common factor, which is their sum
    num_ = wt
    for a in negatives(wt):
        num_ = mul(num_, a)
    if any(depends(a, b) for a in negatives(wt)) or negatives(num_):
        rep.undecided("the weights are positive and do not increase", w, show(wt, 5)[:300])
    else:
        G = IN.facts([le(ZERO, b), lt(add(b, ONE), mu), le(ONE, mu), le(mu, C.POP)])
        # their sum is one, so they have the sign for which they are positive
        one_ = IN.facts([le(ONE, mu)])
        signs = [x for x in (num_, neg(num_)) if positive(subst(x, {b: sub(mu, ONE)}), one_, True)]
        rep.require(signs, "the weights are positive", w, why="last weight ~ %s" % show(subst(num_, {b: sub(mu, ONE)}), 6)[:300])
        for x in signs[:1]:
            step = sub(x, subst(x, {b: add(b, ONE)}))
            rep.require(positive(step, G, False), "the weights do not increase", w, why="weight - next weight ~ %s" % show(step, 6)[:300])
    return A


def negatives(t):
    if t.op != "poly":
        return []
    return list(dict.fromkeys(a for c, m in t.args for a, e in m if e < 0))


def positive(p, F, strict):
    """p > 0 (p >= 0), where logarithms may occur in pairs."""
    if decide(lt(ZERO, p) if strict else le(ZERO, p), F) is True:
        return True
    logs = []
    rest = ZERO
    for c, m in p.args if p.op == "poly" else [(1, ((p, 1),))]:
        if len(m) == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "log" and m[0][1] == 1:
            logs.append((c, m[0][0].args[1]))
        else:
            rest = add(rest, PR._mono(c, m))
    def above(a, b, strict):
        d = sub(a, b)
        # a negative quantity in a denominator is replaced by its opposite
        G = F
        for m in {m for n in nodes(d) if n.op == "poly" for _, mono in n.args for m, e in mono if e < 0}:
            if decide(lt(m, ZERO), G) is True:
                z = fresh("z")
                low = [ONE] if decide(le(m, neg(ONE)), G) is True else []
                d = subst(d, {m: neg(z)})
                G = facts(list(G.lits if hasattr(G, "lits") else G) + [lt(ZERO, z), eq(z, neg(m))] + [le(x, z) for x in low])
        t = PR.clear_denominators(d, G, True)
        return any(decide(lt(ZERO, x) if strict else le(ZERO, x), G) is True for x in (d, t, PR.clear_denominators(t, G, True)))

    ups = [x for x in logs if x[0] > 0]
    downs = [x for x in logs if x[0] < 0]
    # log(a) stands alone: compared with log(1)
    c = {abs(x[0]) for x in logs}
    if len(c) != 1 or abs(len(ups) - len(downs)) > 1:
        return False
    c = c.pop()
    if len(ups) > len(downs):
        downs.append((-c, ONE))
    elif len(downs) > len(ups):
        ups.append((c, ONE))
    good = decide(le(ZERO, rest), F) is True
    some = False
    for (_, a), (_, b) in zip(ups, downs):
        good &= above(a, b, False) and above(b, ZERO, True)
        some |= above(a, b, True)
    return good and (some or not strict)


def weights(M, R, idx, b):
    """Coefficients of the ranked candidates in the new mean, and how many there are."""
    if M.op != "poly":
        M2 = [(1, ((M, 1),))]
    else:
        M2 = M.args
    # a part of the candidate that depends on its rank
    marks = [(c, m) for c, m in (R.args if R.op == "poly" else [(1, ((R, 1),))]) if any(depends(a, idx) for a, e in m)]
    if not marks:
        return None
    c0, m0 = marks[0]
    dep = tuple((a, e) for a, e in m0 if depends(a, idx))
    ind = tuple((a, e) for a, e in m0 if not depends(a, idx))
    out, n = ZERO, None
    for c, mono in M2:
        sums = [a for a, e in mono if a.op == "sum" and e == 1 and any(x.op == "argsort" for x in nodes(a))]
        if not sums:
            continue
        if len(sums) != 1:
            return None
        s = sums[0]
        N, v, body = s.args
        body = subst(body, {v: b})
        bm = body.args if body.op == "poly" else [(1, ((body, 1),))]
        for c2, m2 in bm:
            have = dict(m2)
            if not all(have.get(a, 0) == e for a, e in dep):
                continue
            g = PR._mono(c2, tuple(x for x in m2 if x not in dep))
            if any(depends(a, idx) for a in [g]):
                continue
            if n is None:
                n = N
            elif n is not N:
                return None
            f = PR._mono(c, tuple(x for x in mono if x[0] is not s))
            out = add(out, mul(mul(f, g), div(ONE, PR._mono(c0, ind))))
    if out is ZERO:
        return None
    return out, n


# ------------------------------------------------------------------ ranking and penalty
def values(rep, r, L, at_, A, pop, W, X, k, j, opts, w):
    F = at(A.args[0], 0, k)
    o = open_boxes(obj_at(r, at(pop, 0, k)))
    v = open_boxes(F)
    if opts.get("constraints") is None:
        rep.require(v is o or sub(v, o) is ZERO, "candidates are ranked by their values", w, why="ranked by %s" % show(v, 5)[:300])
        return
    atoms = [n for n in set(nodes(v)) if n.op == "obj"]
    pen = None
    for n in atoms:
        if n is o or PR.open_boxes(n) is o:
            pen = sub(v, n)
    if pen is None or any(depends(pen, n) for n in []):
        pen = sub(v, o)
    rule = "the penalty is a weighted squared distance to the box"
    b = fresh("b")
    body = ZERO
    for c, mono in (pen.args if pen.op == "poly" else [(1, ((pen, 1),))]):
        ss = [a for a, e in mono if a.op == "sum" and e == 1 and a.args[0] is C.NDIM and a not in nodes(X)]
        if len(ss) != 1:
            rep.fail(rule, w, "the penalty contains %s" % show(PR._mono(c, mono), 5)[:300])
            return
        n, v0, t = ss[0].args
        body = add(body, mul(PR._mono(c, tuple(x for x in mono if x[0] is not ss[0])), subst(t, {v0: b})))
    common = None
    ms = body.args if body.op == "poly" else [(1, ((body, 1),))]
    for c, m in ms:
        s = {(a, e) for a, e in m if not depends(a, k)}
        common = s if common is None else common & s
    if not common:
        rep.undecided(rule, w, "no common weight in %s" % show(body, 4)[:300])
        return
    wt = PR._mono(1, tuple(common))
    rest = ZERO
    for c, m in ms:
        rest = add(rest, PR._mono(c, tuple(x for x in m if x not in common)))
    Wb, Xb = subst(W, {j: b}), subst(X, {j: b})
    dist = sub(Wb, Xb)
    # constant factors belong to the weight
    P = PR.Prover(budget=3000)
    good = sub(open_boxes(rest), mul(dist, dist)) is ZERO or P.prove(eqg(open_boxes(rest), mul(dist, dist)), [])
    rep.require(good, rule, w, why="summand %s, distance %s" % (show(rest, 5)[:300], show(dist, 5)[:200]))
    rule = "the repaired point is the nearest one in the box"
    cases = (([le(num(-1), Xb), le(Xb, ONE)], Xb, "inside"), ([lt(Xb, num(-1))], num(-1), "below"), ([lt(ONE, Xb)], ONE, "above"))
    for fs, want, what in cases:
        G = IN.facts(fs)
        y = resolve(Wb, G)
        if sub(y, want) is ZERO:
            rep.ok(rule, w, what)
        else:
            rep.prove(eqg(y, want), fs, rule, w, what)
    update(rep, r, L, at_, wt, b, w)


def update(rep, r, L, at_, wt, b, w):
    """Weights are not negative and treat both bounds alike."""
    wt = open_boxes(wt)
    news = [x for p, (i, n) in L.phis.items() for x in (i, n)]
    facts_ = percentiles(news)
    med = [x for p, (i, n) in L.phis.items() for x in nodes(n) if x.op == "np" and x.args[0] == "median"]
    med += [x for x in nodes(wt) if x.op == "np" and x.args[0] == "median"]
    h = ()
    hist = {p for x in med for p in nodes(x) if p.op == "phi" and p.args[0] == L.id and p.shape and len(p.shape) == 1}
    i = fresh("i")
    # the recorded ranges of values
    for p in hist:
        init, new = L.phis[p]
        if not any(new is x.args[1] for x in med):
            continue
        one = (Hyp(Goal("le", (ZERO, at(p, 0, i))), (i,), ()),)
        q = fresh("q")
        good = True
        for t, H, F in ((init, (), list(L.pc)), (new, one, list(L.body_pc))):
            g, more = selected(single(open_boxes(at(t, 0, q))), H, F + facts_)
            known = percentiles([g])
            known += factored([g], F + facts_ + known)
            good &= rep.prove(leg(ZERO, g), F + facts_ + known + [le(ZERO, q), lt(q, t.shape[0])],
                              "recorded ranges of values are not negative", w, hyps=H + more)
        if good:
            h += one
    # the weights
    ps = {x.args[0] for x in factors(wt) if x.op == "at"}
    ps = [p for p in ps if p.op == "phi" and p.args[0] == L.id and p.shape == (C.NDIM,) and
          decide(le(ZERO, at(L.phis[p][0], 0, i)), IN.facts([])) is True]
    hs = ()
    rule = "the weights of the penalty are not negative"

    def goal(t):
        m, known = {}, []
        for x in {x for x in nodes(t) if x.op == "np" and x.args[0] == "median"}:
            q = fresh("q")
            F = list(L.body_pc) + facts_
            g, more = selected(single(open_boxes(at(x.args[1], 0, q))), h, F)
            F += percentiles([g])
            F += factored([g], F)
            if PR.Prover(budget=4000).prove(leg(ZERO, g), F + [le(ZERO, q), lt(q, x.args[1].shape[0])], h + more):
                m[x] = sym("$median%d" % len(m))
                known.append(le(ZERO, m[x]))
        return subst(t, m) if m else t, list(L.body_pc) + known

    for p in ps:
        f = Hyp(Goal("le", (ZERO, at(p, 0, i))), (i,), ())
        q = fresh("q")
        new, known = goal(open_boxes(at(L.phis[p][1], 0, q)))
        if nonneg(new, IN.facts(known), [at(p, 0, q)]):
            hs += (p,)
            rep.ok(rule, w, "induction: %s" % show(p))
        else:
            rep.prove(leg(ZERO, new), known + [le(ZERO, q), lt(q, C.NDIM)], rule, w, "induction: %s" % show(p), hyps=(f,))
        mirror(rep, L, at_, new, q, w)
    g, known = goal(wt)
    if nonneg(g, IN.facts(known), [at(p, 0, b) for p in hs]):
        rep.ok(rule, w)
    else:
        rep.fail(rule, w, "weight %s" % show(g, 6)[:400])


def nonneg(t, F, leaves):
    """Not negative, branch by branch and factor by factor."""
    if t in leaves or t.op == "fn" and t.args[0] in ("exp", "sqrt", "abs"):
        return True
    if t.op == "ite":
        return nonneg(t.args[1], F, leaves) and nonneg(t.args[2], F, leaves)
    if t.op == "min":
        return all(nonneg(x, F, leaves) for x in t.args)
    if t.op == "poly" and all(c > 0 and all(e % 2 == 0 or nonneg(a, F, leaves) for a, e in m) for c, m in t.args):
        return True
    if t.op in ("pow", "fn") and any(x.op == "num" and x.args[0] > 0 for x in t.args[:2] if isinstance(x, terms.T)):
        return t.op == "pow" or t.args[0] == "pow"
    return decide(le(ZERO, t), F) is True


def factors(t):
    """What the sign is looked up of."""
    if t.op == "ite":
        return factors(t.args[1]) | factors(t.args[2])
    if t.op == "min":
        return set().union(*[factors(x) for x in t.args])
    if t.op == "poly":
        return set().union(*[factors(a) for c, m in t.args for a, e in m if e % 2])
    return {t}


def selected(t, H, F):
    """Selections by a mask hold only values the mask holds for: those proved not to be negative are named."""
    m, hyps = {}, ()
    for n in set(nodes(t)):
        if n.op == "msel":
            c, i = fresh("c"), fresh("i")
            A, M = at(n.args[0], 0, c), at(n.args[1], 0, c)
            if PR.Prover(budget=2000).prove(leg(ZERO, A), F + [M, le(ZERO, c), lt(c, n.args[0].shape[0])], H):
                m[n] = sym("$selected%d" % len(m), n.shape)
                hyps += (Hyp(Goal("le", (ZERO, at(m[n], 0, i))), (i,), ()),)
    return subst(t, m) if m else t, hyps


def single(t):
    """The only element of a list of one."""
    m = {n: at(n.args[0], 0, ZERO) for n in nodes(t) if n.op == "at" and n.args[1] == 0 and n.args[0].op == "stack" and
         len(n.args[0].args) == 1}
    return subst(t, m) if m else t


def percentiles(ts):
    """Order of percentiles; variances, on the diagonal of a covariance, add up to something positive."""
    out = []
    for x in {x for t in ts for x in nodes(t)}:
        if x.op == "np" and x.args[0] == "percentile":
            q = x.args[2]
            ks = [at(q, 0, num(a)) for a in range(int(q.shape[0].args[0]))] if q.shape and is_num(q.shape[0]) else []
            if all(is_num(t) for t in ks):
                out += [le(at(x, 0, num(a)), at(x, 0, num(c))) for a, t in enumerate(ks) for c, u in enumerate(ks)
                        if a != c and t.args[0] <= u.args[0]]
        elif x.op == "sum" and x.args[0] is C.NDIM and x.args[2].op == "at" and x.args[2].args[2] is x.args[1] and \
                x.args[2].args[0].op == "at" and x.args[2].args[0].args[2] is x.args[1] and x.args[2].args[0].args[0].op == "phi":
            out.append(lt(ZERO, x))
        elif x.op == "sum" and x.args[0] is C.NDIM and nonneg(x.args[2], IN.facts([]), []):
            m = x.args[2].args[0][1] if x.args[2].op == "poly" and len(x.args[2].args) == 1 else ()
            # a vector of scales, squared
            scale = len(m) == 1 and m[0][1] == 2 and m[0][0].op == "at" and m[0][0].args[0].op == "phi"
            out.append((lt if scale else le)(ZERO, x))
    return out


def factored(ts, F):
    """Signs of products whose common factor is positive."""
    out, K = [], IN.facts(F)
    for x in {x for t in ts for x in nodes(t)}:
        if x.op == "poly" and len(x.args) > 1 and any(a.op == "at" and a.args[0].op == "np" for c, m in x.args for a, e in m):
            common = set.intersection(*[set(m) for c, m in x.args])
            if common and all(e % 2 == 0 or decide(lt(ZERO, a), K) is True for a, e in common):
                rest = ZERO
                for c, m in x.args:
                    rest = add(rest, PR._mono(c, tuple(y for y in m if y not in common)))
                if decide(le(ZERO, rest), K) is True:
                    out.append(le(ZERO, x))
    return out


def mirror(rep, L, at_, new, q, w):
    rule = "both bounds are treated alike"
    new = open_boxes(new)
    m = {}
    for n in nodes(new):
        if n.op in ("obj", "np"):
            m[n] = sym("$o%d" % len(m), n.shape)
    t = subst(new, m)
    # positions: the mean and the previous mean
    pos = {p for p in L.phis if p is at_ or L.phis[p][1] is at_}
    ref = {p: neg(p) for p in pos}
    u = subst(t, ref)
    if t is u:
        rep.require(not pos, rule, w)
        return
    ms = [at(p, 0, q) for p in pos if any(n is at(p, 0, q) for n in nodes(t))]
    cases = [[]]
    for x in ms:
        cases = [c + f for c in cases for f in ([lt(x, num(-1))], [le(num(-1), x), le(x, ONE)], [lt(ONE, x)])]
    bad = None
    for c in cases:
        F = IN.facts(c)
        P = PR.Prover(budget=2000)
        a, b = [P.simp(resolve(y, F), F) for y in (t, u)]
        if a is not b:
            bad = bad or (c, a, b)
    if bad is None:
        rep.ok(rule, w)
    else:
        rep.fail(rule, w, "when %s the weight becomes %s, reflected %s" % (", ".join(show(x, 3) for x in bad[0]), show(bad[1], 7)[:700], show(bad[2], 7)[:700]))


def tasks(tier):
    out = []
    for m in ("cmaes", "vdcma"):
        for n, o in S.configs(m, tier).items():
            if tier == "quick" and n not in ("default", "x0", "history", "history-some", "penalize", "penalize-x0", "penalize-history"):
                continue
            out.append(("%s/%s" % (m, n), check, (m, o, n)))
    return out
