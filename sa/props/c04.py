"""C04 Bound constraints keep every point inside the feasible box."""
from .. import terms
from .c14 import box_lo, box_hi, bounds_of
from ..order import decide, refuted
from ..prove import Hyp, Goal, leg, open_boxes
from .extract import *

EXPLANATION = ("Every coordinate of every point handed to the objective, shown to the callback and reported is proved to lie between "
               "the bounds, from ordered bounds and an initial guess inside them. The point tables that a loop carries are proved "
               "to stay inside by a joint induction (largest subset of tables that is inductive). Rules: a point lo + (hi - lo) t needs t in "
               "[0, 1]; a coordinate x + beta * w, where beta is the smallest of the ratios of the masked coordinates, needs x inside, every "
               "ratio to be the one at which its own coordinate meets a bound, masked coordinates to leave the box, and every coordinate "
               "that leaves the box to be masked. NA: the intervals of the resampling walk lie inside the unit cube. Samplers: a proposal that "
               "becomes a sample is inside, by instantiating the acceptance condition at its coordinates, and a proposal inside is not "
               "rejected for its position. Instances: points, tables, bounds.")
MINIMUM = 60


def check(rep, m, opts, name):
    r = start(rep, m, dict(opts, callback=S.cb))
    one = (r.entry, 0, r.entry)
    f = r.fields()
    hyps = assumptions(r, m, opts)
    PR.Prover.tactics = (Scaled(r), Shrunk(r))
    evs = [e for e in after_import(r) if e.kind == "eval" and e.name == "fun"]
    pts = [("points evaluated lie within the bounds", e.x, list(e.pc), e) for e in evs]
    for e in [e for e in after_import(r) if e.kind == "callback"]:
        pop, d = state_of(e)
        b = fresh("b")
        pts.append(("points shown lie within the bounds", at(pop, 0, b), list(e.pc) + [le(ZERO, b), lt(b, pop.shape[0])], e))
        pts.append(("points reported lie within the bounds", d["x"], list(e.pc), e))
    pts.append(("points reported lie within the bounds", f["x"], list(finals(r)), src_of(f["x"]) or one))
    rep.require(evs, "the objective is evaluated", one)
    rep.prover = PR.Prover(budget=3000)
    if m in ("cpso", "pso", "de"):
        hyps = hyps + invariants(rep, r, hyps)
        rep.prover.induction = False
    for rule, x, F, w in pts:
        if x is None or x.shape is None:
            rep.undecided(rule, w, "unknown point")
            continue
        j = fresh("j")
        G = F + [le(ZERO, j), lt(j, C.NDIM)]
        v = at(x, 0, j)
        rep.prove(leg(box_lo(r, j), v), G, rule, w, "lower bound", hyps=hyps)
        rep.prove(leg(v, box_hi(r, j)), G, rule, w, "upper bound", hyps=hyps)


def assumptions(r, m, opts):
    """The bounds are ordered, an initial guess lies within them."""
    j, i = fresh("j"), fresh("i")
    lo, hi = box_lo(r, j), box_hi(r, j)
    out = [Hyp(Goal("le", (lo, hi)), (j,), ())]
    if opts.get("x0") is not None:
        x0 = sym("x0", (C.POP, C.NDIM) if m in S.POPULATION else (C.NDIM,))
        e = at(at(x0, 0, i), 0, j) if len(x0.shape) == 2 else at(x0, 0, j)
        vs = (i, j) if len(x0.shape) == 2 else (j,)
        out += [Hyp(Goal("le", (lo, e)), vs, ()), Hyp(Goal("le", (e, hi)), vs, ())]
    return out


# ------------------------------------------------------------------ joint induction
def inside(r, t):
    """The statement that all points of a table lie within the bounds."""
    i, j = fresh("i"), fresh("j")
    if len(t.shape) == 2:
        e, vs = at(at(t, 0, i), 0, j), (i, j)
    else:
        e, vs = at(t, 0, j), (j,)
    return [Hyp(Goal("le", (box_lo(r, j), e)), vs, ()), Hyp(Goal("le", (e, box_hi(r, j))), vs, ())]


def invariants(rep, r, hyps):
    cand = []
    for L in IN.LOOPS.values():
        for p in L.phis:
            if p.shape and len(p.shape) <= 2 and p.shape[-1] is C.NDIM and L.phis[p][0].op != "undef" and is_numeric(p) and \
                    L.names.get(p) not in ("V", "v"):
                cand.append((L, p))
    while True:
        have = {(L, p): inside(r, p) + inside(r, fin(L.id, p)) for L, p in cand}
        H = hyps + [h for v in have.values() for h in v]
        keep = [c for c in cand if inductive(rep, r, c[0], c[1], hyps, have)]
        if len(keep) == len(cand):
            break
        cand = keep
    for L, p in cand:
        rep.ok("points carried by a loop stay within the bounds", tuple(L.src) if L.src else None, show(p))
    return H if cand else []


def inductive(rep, r, L, p, hyps, have):
    i, j = fresh("i"), fresh("j")
    idx = [le(ZERO, j), lt(j, C.NDIM)]
    if len(p.shape) == 2:
        idx += [le(ZERO, i), lt(i, p.shape[0])]
    pick = (lambda t: at(at(t, 0, i), 0, j)) if len(p.shape) == 2 else (lambda t: at(t, 0, j))
    init, new = L.phis[p]
    outer = hyps + [h for (M, q), hs in have.items() if M is not L and not PR.below(q, L.id) for h in hs]
    inner = hyps + [h for hs in have.values() for h in hs]
    k = iterk(L.id)
    for t, F, H in ((init, list(L.pc), outer), (new, list(L.body_pc) + list(L.end_pc) + [L.back], inner)):
        if t.shape is None:
            return False
        v = pick(t)
        for g in (leg(box_lo(r, j), v), leg(v, box_hi(r, j))):
            P = PR.Prover(budget=1500)
            P.induction = False
            ok = P.prove(g, F + idx, tuple(H))
            rep.info["steps"] = rep.info.get("steps", 0) + P.steps
            if not ok:
                if DEBUG:
                    print("  not inductive:", L.id, L.names.get(p), "init" if t is init else "step", P.failure()[:1500])
                return False
    return True


DEBUG = False


# ------------------------------------------------------------------ rules
class Scaled:
    """lo + (hi - lo) t lies between lo and hi when t is between 0 and 1."""

    def __init__(self, r):
        self.r = r

    def __call__(self, P, goal, F, H, depth, seen):
        a, b = (open_boxes(t) for t in goal.terms)
        p = sub(b, a)
        if p.op != "poly":
            return False
        for j in places(self.r, p):
            lo, hi = box_lo(self.r, j), box_hi(self.r, j)
            D = sym("$width")
            q = subst(p, {hi: add(lo, D)})
            if q.op != "poly" or not all(any(x is D and e >= 1 for x, e in mono) for c, mono in q.args):
                continue
            out = ZERO
            for c, mono in q.args:
                out = add(out, PR._mono(c, tuple((x, e - 1 if x is D else e) for x, e in mono if x is not D or e != 1)))
            if depends(out, D):
                continue
            G = F
            d = PR.clear_denominators(out, G, True)
            if decide(le(ZERO, d), G) is True or P.solve(leg(ZERO, d), G, H, depth + 1, seen):
                return True
        return False


class Shrunk:
    """x + beta w lies within the bounds for the smallest of the ratios at which masked coordinates meet a bound."""

    def __init__(self, r):
        self.r = r

    def __call__(self, P, goal, F, H, depth, seen):
        a, b = goal.terms
        beta = smallest(a, b)
        if beta is not None:
            z = sym("$beta")
            a, b = (open_boxes(subst(t, {beta: z})) for t in (a, b))
            p = sub(b, a)
            c0, one = subst(p, {z: ZERO}), subst(p, {z: ONE})
            c1 = sub(one, c0)
            if p is not add(c0, mul(c1, z)) or depends(c1, z) or smallest(p) is not None:
                return False
        else:
            a, b = open_boxes(a), open_boxes(b)
            p = sub(b, a)
            ix = {n.args[2] for n in nodes_top(p) if n.op == "at" and n.args[0].op == "msel" and n.args[2].op == "argmin"}
            if not ix:
                # no place is masked: nor is this one
                G = F.plus(*[x for j in places(self.r, p) for x in instances(F, j)])
                return decide(le(a, b), G) is True
            if len(ix) != 1:
                return False
            ix = ix.pop()
            beta = at(ix.args[0], 0, ix)
            for v in variants(open_boxes(beta)):
                c0, c1 = linear(p, v)
                if not depends(c0, ix) and not depends(c1, ix):
                    break
            else:
                return False
        # the coordinate in question
        js = places(self.r, p)
        if len(js) != 1:
            return False
        j = js[0]
        # inside when the step is not taken at all
        if not P.solve(self.slack(c0, j), F, H, depth + 1, seen):
            return False
        # the other bound
        w0 = sub(box_hi(self.r, j), box_lo(self.r, j))
        d0, d1 = sub(w0, c0), neg(c1)
        ratios = ratio_terms(beta)
        if not ratios:
            return False
        sides = []
        for M, f0, f in [(M, f0, f) for M, f0 in ratios for f in kinds(f0)]:
            i = fresh("j")
            fi, mask = f0(i)
            if mask is None or not nonempty(mask, i, F):
                return False
            mask = f(i)[1]
            G = F.plus(le(ZERO, i), lt(i, C.NDIM))
            G = G.plus(*opened_lits(mask))
            fi = chosen(fi, G.plus(le(box_lo(self.r, i), box_hi(self.r, i))))
            found = None
            for name, s0, s1 in (("same", c0, c1), ("other", d0, d1)):
                x0, x1 = subst(s0, {j: i}), subst(s1, {j: i})
                full = add(x0, x1)
                if decide(lt(full, ZERO), G) is not True:
                    continue
                if PR.clear_denominators(add(x0, mul(open_boxes(fi), x1)), G.plus(bnot(eq(x1, ZERO)), *nonzeros(fi, x1))) is not ZERO:
                    continue
                if not P.solve(self.slack(x0, i), G, H, depth + 1, seen):
                    continue
                found = name
                break
            if found is None:
                return False
            sides.append((found, f))
        # a coordinate that would leave by this side is masked
        G = F.plus(lt(add(c0, c1), ZERO))
        G = G.plus(*instances(F, j))
        if G.contradictory or refuted(list(G.lits)):
            return True
        for name, f in sides:
            if name == "same":
                fj, mask = f(j)
                if all(decide(open_boxes(x), G) is True for x in conj(mask)):
                    return True
        return False


    def slack(self, c, j):
        lo, hi = box_lo(self.r, j), box_hi(self.r, j)
        x = add(c, lo)
        if not depends(x, lo):
            return leg(lo, x)
        return leg(sub(hi, c), hi)


def places(r, p):
    """The coordinates whose bounds occur in a term."""
    out = []
    for n in nodes_top(p):
        if n.op == "at":
            for i in (n.args[2], n.args[0].args[2] if n.args[0].op == "at" else None):
                if i is not None and i not in out and (box_hi(r, i) is n or box_lo(r, i) is n):
                    out.append(i)
    return out


def variants(b):
    """A ratio, and what is left of it where the side of the bound met is known."""
    out = [b]
    for n in nodes_top(b):
        if n.op == "ite":
            out += [subst(b, {n: x}) for x in n.args[1:]]
    return out


def linear(p, b):
    """p = c0 + c1 b"""
    c, m = max(b.args, key=lambda x: len(x[1])) if b.op == "poly" else (1, ((b, 1),))
    want = dict(m)
    c1 = ZERO
    for k, mono in p.args if p.op == "poly" else ():
        have = dict(mono)
        if all(have.get(x, 0) == e for x, e in want.items()):
            c1 = add(c1, PR._mono(k / c, tuple((x, e) for x, e in mono if x not in want)))
    return sub(p, mul(c1, b)), c1


def nonzeros(fi, x1):
    """The denominator of a ratio is, up to its sign, the step."""
    out = []
    for n in nodes(open_boxes(fi)):
        if n.op == "poly":
            for c, mono in n.args:
                for a, e in mono:
                    if e < 0 and (sub(a, x1) is ZERO or add(a, x1) is ZERO):
                        out.append(bnot(eq(a, ZERO)))
    return out


def smallest(*ts):
    """The smallest entry of a masked array (or of two) in a term."""
    found = set()
    st, done = list(ts), set()
    while st:
        n = st.pop()
        if n in done:
            continue
        done.add(n)
        if n.shape == () and is_least(n):
            found.add(n)
            continue
        if n.op in ("poly", "box", "at"):
            st.extend(children(n))
    return found.pop() if len(found) == 1 else None


def is_least(n):
    if n.op == "min":
        return any(x is not ONE for x in n.args) and all(x is ONE or is_least(x) for x in n.args)
    if n.op == "box":
        return is_least(n.args[0])
    if n.op == "poly":
        ix = {q.args[2] for q in nodes_top(n) if q.op == "at" and q.args[0].op == "msel" and q.args[2].op == "argmin"}
        if len(ix) != 1:
            return False
        a = ix.pop()
        b = at(a.args[0], 0, a)
        return b is n or open_boxes(b) is open_boxes(n)
    if n.op != "at" or n.args[2].op != "argmin":
        return False
    M = n.args[2].args[0]
    return n.args[0] is M or open_boxes(n.args[0]) is open_boxes(M)


def nodes_top(x):
    """Operands of an algebraic expression."""
    out, st = [], [x]
    while st:
        n = st.pop()
        if n in out:
            continue
        out.append(n)
        if n.op in ("poly", "box"):
            st.extend(children(n))
    return out


def ratio_terms(beta):
    xs = [x for x in beta.args if x is not ONE] if beta.op == "min" else [beta]
    return [(x, ratio(x)) for x in xs]


def ratio(x):
    def f(i):
        body = open_boxes(x)
        m, masks = {}, set()
        least = {n.args[2] for n in nodes(body) if n.op == "at" and n.args[0].op == "msel" and n.args[2].op == "argmin"}
        for n in nodes(body) if len(least) == 1 else ():
            if n.op == "at" and n.args[0].op == "msel" and n.args[2] in least:
                m[n] = at(n.args[0].args[0], 0, i)
                masks.add(n.args[0].args[1])
        if len(masks) != 1:
            return body, None
        return subst(body, m), at(masks.pop(), 0, i)
    return f


def kinds(f):
    """One side at a time, where several masks are united."""
    mask = f(fresh("j"))[1]
    if mask is None or mask.op != "or":
        return [f]
    return [lambda i, k=k: (f(i)[0], f(i)[1].args[k]) for k in range(len(mask.args))]


def chosen(t, F):
    """Alternatives the facts select."""
    for _ in range(3):
        m = {}
        for n in nodes(t):
            if n.op == "ite":
                d = decide(open_boxes(n.args[0]), F)
                if d is not None:
                    m[n] = n.args[1 if d else 2]
        if not m:
            return t
        t = subst(t, m)
    return t


def opened_lits(mask):
    out = []
    for c in conj(mask):
        out.append(c)
        d = open_boxes(c)
        if d is not c:
            out.append(d)
    return out


def nonempty(mask, i, F):
    """The facts say that some place is masked."""
    want = redi_any(mask, i)
    w2 = redi_any(open_boxes(mask), i)
    wants = {want, w2} | {x for t in (want, w2) if t.op == "or" for x in t.args}
    return any(l in wants or open_boxes(l) in wants for l in F.lits)


def redi_any(c, i):
    return terms.redi("any", C.NDIM, i, c)


def instances(F, j):
    """What the facts say about place j."""
    out = []
    for l in F.lits:
        if l.op == "not" and l.args[0].op == "any" and l.args[0].args[0] is C.NDIM:
            n, b, body = l.args[0].args
            x = subst(body, {b: j})
            out += [bnot(x), open_boxes(bnot(x))]
    return out


# ------------------------------------------------------------------ samplers
def chain(rep, m, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    terms.EXPAND_LIMIT = terms.POWER_LIMIT = 400
    r = start(rep, m, dict(opts, return_all=TRUE))
    one = (r.entry, 0, r.entry)
    f = r.fields()
    X = f.get("xall")
    xs = steps(r, X) if X is not None else []
    hyps = assumptions(r, m, opts)
    PR.Prover.tactics = (Scaled(r), Shrunk(r))
    if not xs:
        rep.undecided("the sampling loop writes one sample per step", one)
        return
    j = fresh("j")
    lo, hi = box_lo(r, j), box_hi(r, j)
    idx = [le(ZERO, j), lt(j, C.NDIM)]
    for sx in xs:
        w = tuple(sx.L.src) if sx.L.src else one
        al = aliases(sx.L, [sx])
        rule = "a new sample lies within the bounds"
        ls = leaves(subst(sx.value, al) if al else sx.value)
        props = [(c, v) for c, v in ls if v is not sx.before]
        rep.require(props, "proposals are accepted", w)
        for c, v in props:
            lits = [x for l in c for x in conj(l)]
            F = IN.facts(idx + list(sx.L.body_pc) + lits)
            F = F.plus(*instances(F, j))
            e = at(v, 0, j)
            for g, which in ((leg(lo, e), "lower bound"), (leg(e, hi), "upper bound")):
                rep.prove(g, list(F.lits), rule, w, which)
            # nothing else about its position is asked
            for l in lits:
                if any(n.op == "rnd" and n.args[0] == "u01" and not depends(v, n) for n in nodes(l)) or \
                        not any(n is bounds_of(r) for n in nodes(l)):
                    continue
                what = "a proposal inside the bounds is not rejected for its position"
                if l.op == "not" and l.args[0].op == "any" and l.args[0].args[0] is C.NDIM:
                    n, b, body = l.args[0].args
                    x = subst(body, {b: j})
                    G = IN.facts(idx + list(sx.L.body_pc) + [le(lo, e), le(e, hi)])
                    d = decide(x, G)
                    rep.require(d is False, what, w, why="accepted only when %s at every coordinate" % show(bnot(x), 5)[:300])
                else:
                    d = decide(l, IN.facts([le(lo, e), le(e, hi)]))
                    (rep.ok if d is True else rep.undecided)(what, w, show(l, 5)[:300])
        # the first sample
        first = at(sx.init, 0, ZERO)
        if any(n.op in ("phi", "iter") for n in nodes(first)):
            continue
        v = at(first, 0, j)
        for g, which in ((leg(lo, v), "lower bound"), (leg(v, hi), "upper bound")):
            rep.prove(g, idx + list(sx.L.pc), "the first sample lies within the bounds", w, which, hyps=hyps)
    firsts = [sx for sx in xs if not any(n.op in ("phi", "iter") for n in nodes(at(sx.init, 0, ZERO)))]
    if not firsts:
        L = IN.LOOPS.get(xs[0].L.parent)
        inits = [i for p, (i, n) in (L.phis.items() if L else ()) if p.shape == xs[0].p.shape and i.op != "undef"]
        ok = rep.require(inits, "the first sample lies within the bounds", one, why="no initial sample") if L else \
            rep.undecided("the first sample lies within the bounds", one)
        for i in inits:
            v = at(at(i, 0, ZERO), 0, j)
            for g, which in ((leg(lo, v), "lower bound"), (leg(v, hi), "upper bound")):
                rep.prove(g, idx + list(L.pc), "the first sample lies within the bounds", tuple(L.src) if L.src else one, which, hyps=hyps)


# ------------------------------------------------------------------ NA
def cube(rep, opts, name):
    from . import c23

    rep.prover = PR.Prover(budget=3000)
    c23.check(rep, opts, name)
    r = start(rep, "na", opts)
    hyps = assumptions(r, "na", opts)
    PR.Prover.tactics = (Scaled(r), Shrunk(r))
    evs = [e for e in after_import(r) if e.kind == "eval" and e.name == "fun"]
    j = fresh("j")
    for e in evs[:1]:
        v = at(e.x, 0, j)
        G = list(e.pc) + [le(ZERO, j), lt(j, C.NDIM), lt(box_lo(r, j), box_hi(r, j))]
        from .c25 import simplify
        v = simplify(v, G)
        if opts.get("x0") is not None:
            from .c14 import index_of

            x = at(at(sym("x0", (C.POP, C.NDIM)), 0, index_of(e)), 0, j)
            v = x if PR.clear_denominators(sub(v, x), IN.facts(G)) is ZERO else v
        rule = "points evaluated lie within the bounds"
        rep.prove(leg(box_lo(r, j), v), G, rule, e, "lower bound", hyps=hyps)
        rep.prove(leg(v, box_hi(r, j)), G, rule, e, "upper bound", hyps=hyps)


def tasks(tier):
    out = []
    for m in S.METHODS:
        for n, o in S.configs(m, tier).items():
            label = "%s/%s" % (m, n)
            if m in ("cpso", "pso", "de", "cmaes", "vdcma") and o.get("constraints") is not None:
                out.append((label, check, (m, o, n)))
            elif m in S.SAMPLERS and o.get("constraints") is not None:
                out.append((label, chain, (m, o, n)))
            elif m == "na" and n in ("default", "x0", "history", "seed", "workers-threading", "history-x0"):
                out.append((label, cube, (o, n)))
    return out
