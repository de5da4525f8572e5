"""C01 Reported function value is the objective at the reported point."""
from .extract import *

EXPLANATION = ("At every callback and at the return, the term of the reported value must be the objective applied to the term of the "
               "reported point (in the user's coordinates): joins are split, loops are descended by induction over their entry and "
               "back edge values, with the rows of tables as universally quantified and order relations between integer loop "
               "variables inferred. In Penalize mode the value reported minus the objective at the point reported must be a function "
               "of the draws of this same candidate and of quantities of the whole generation. Instances: callback sites and returns "
               "per configuration.")
MINIMUM = 150


def check(rep, m, opts, name):
    r = start(rep, m, opts)
    one = (r.entry, 0, r.entry)
    f = r.fields()
    pairs = []
    for e in [e for e in after_import(r) if e.kind == "callback"]:
        pop, d = state_of(e)
        if rep.require("x" in d and "fun" in d, "a state has x and fun", e):
            pairs.append(("state.fun is the objective at state.x", d["x"], d["fun"], e.pc, e))
    if rep.require("x" in f and "fun" in f, "a result has x and fun", one):
        pairs.append(("result.fun is the objective at result.x", f["x"], f["fun"], finals(r), src_of(f["fun"]) or one))
    pen = opts.get("constraints") is not None and opts["constraints"] is const("Penalize")
    for rule, x, v, pc, w in pairs:
        if pen:
            penalized(rep, r, rule, x, v, w)
        else:
            rep.prove(pt(v, obj_at(r, x)), pc, rule, w, ints=m in S.SAMPLERS)


def last_pass(t):
    """t over the values of the last pass of the loops it is taken from, None when such a loop may have no pass."""
    for _ in range(4):
        ls = {n.args[0] for n in nodes(t) if n.op == "fin" and n.args[0] in IN.LOOPS}
        ls = {l for l in ls if not any(k != l and l in ancestors_of(k) for k in ls)} or ls
        top = [l for l in ls if IN.LOOPS[l].parent is None]
        if not top:
            return t
        for l in top:
            L = IN.LOOPS[l]
            m = {p: x[0] for p, x in L.phis.items()}
            m[iterk(l)] = ZERO
            c = subst(L.cond, m) if isinstance(L.cond, T) else None
            if c is not TRUE or any(e[0] == "break" for e in L.exits):
                return None
            s = {fin(l, p): x[1] for p, x in L.phis.items()}
            s[fin(l, iterk(l))] = add(iterk(l), ONE)
            t = subst(t, s)
    return None


def ancestors_of(l):
    return PR.ancestors(l)


def opened(t, q):
    """t with the entries q of boxed arrays written out."""
    for _ in range(8):
        t = PR.open_boxes(t)
        m = {}
        for n in nodes(t):
            if n.op == "at" and n.args[2] is q and n.args[0].op == "box":
                m[n] = at(n.args[0].args[0], n.args[1], q)
        if not m:
            return t
        t = subst(t, m)
    return t


def candidate(x, v):
    """Point and value of one candidate, and the index that stands for it."""
    q = fresh("q")
    am = [n for n in set(nodes(x)) if n.op == "argmin" and not free_bvs(n)]
    am = [n for n in am if not any(n is not k and depends(k, n) for k in am)]
    m = {a: q for a in am}
    return opened(subst(x, m), q), opened(subst(v, m), q), q, len(am)


def own_draws(t, q):
    out = set()
    for n in nodes(t):
        if n.op == "rnd" and depends(n, q) or n.op == "at" and n.args[0].op == "rnd" and n.args[2] is q:
            out.add(n)
    return out


def foreign(t, q, own):
    """Draws of a particular candidate other than q."""
    inner = {n.args[0] for n in nodes(t) if n.op == "at" and n.args[0].op == "rnd" and (n.args[2] is q or free_bvs(n.args[2]))}
    return [n for n in set(nodes(t)) if n.op == "rnd" and n not in inner and n not in own and not free_bvs(n)
            or n.op == "at" and n.args[0].op == "rnd" and n not in own and not free_bvs(n) and len(n.args[0].shape or ()) == 2]


def penalized(rep, r, rule, x, v, w):
    x, v = last_pass(x), last_pass(v)
    if x is None or v is None:
        rep.undecided(rule, w, "the point is left by a loop that may have no pass")
        return
    x, v, q, n = candidate(x, v)
    o = PR.open_boxes(obj_at(r, x))
    d = sub(v, o)
    top = [a for c, mono in d.args for a, e in mono if a.op == "obj"] if d.op == "poly" else [d] if d.op == "obj" else []
    if not rep.require(n == 1 and not top, rule, w, why="value less objective is %s" % show(d, 5)[:500]):
        return
    own = own_draws(x, q)
    bad = foreign(d, q, own)
    rep.require(own and not bad and own & own_draws(d, q), "the penalty is that of the same candidate", w,
                why="it uses %s" % ", ".join(show(b, 5)[:150] for b in bad[:3]))


def tasks(tier):
    return each(S.METHODS, tier, check)
