"""C19 MCMC proposals perturb every coordinate in turn with the requested scale."""
from .. import terms
from ..order import facts, nonneg, pos
from .extract import *

EXPLANATION = ("From the state equations of the sampling loop the proposal is read coordinate by coordinate: inside the block it "
               "must be the current sample plus stepsize * (upper - lower) / 2 times an own entry of a standard normal draw of that "
               "pass, outside the block the current sample. The blocks of a sweep must be [a*k, min(ndim, a*k + a)) for k = 0, 1, ... "
               "as long as a*k < ndim with an integer a >= 1: they are consecutive, start at 0 and end at ndim. Instances: proposals, "
               "blocks and draws per configuration.")
MINIMUM = 8


def check(rep, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    r = start(rep, "mcmc", dict(opts, return_all=TRUE))
    one = (r.entry, 0, r.entry)
    X = r.field("xall")
    xs = steps(r, X)
    if not xs:
        rep.undecided("the sampling loop writes one entry per iteration", one)
        return
    b = r.I.val(r.params["bounds"])
    s = r.params["stepsize"]
    s = r.I.val(s) if not isinstance(s, T) else s
    half = mul(s, div(ONE, TWO), sub(at(b, 1, ONE), at(b, 1, ZERO)))
    for sx in xs:
        w = tuple(sx.L.src) if sx.L.src else one
        al = aliases(sx.L, [sx])
        v = subst(sx.value, al) if al else sx.value
        props = []
        for c, x in leaves(v):
            if x is not sx.before and x not in props:
                props.append(x)
        if len(props) != 1:
            rep.fail("one proposal per pass", w, "new sample is one of %s" % "; ".join(show(x, 4)[:200] for c, x in leaves(v)))
            continue
        proposal(rep, r, sx, props[0], half, w)


def proposal(rep, r, sx, prop, half, w):
    c = fresh("c")
    base = at(sx.before, 0, c)
    ls = [(p, x) for p, x in leaves(at(prop, 0, c))]
    touched = [(p, x) for p, x in ls if x is not base]
    if not touched:
        rep.fail("the proposal differs from the current sample", w, show(prop, 5))
        return
    cond = bor(*[band(*p) if p else TRUE for p, x in touched])
    blk = block(cond, c, prop.shape[0])
    z = None
    for p, x in touched:
        d = sub(x, base)
        zs = [n for n in nodes(d) if n.op == "rnd"]
        rule = "a perturbation is a centred normal draw times stepsize times half the width"
        if len(zs) != 1:
            rep.fail(rule, w, "the perturbation is %s" % show(d, 6)[:400])
            return
        z = zs[0]
        ok = rep.require(z.args[0] == "norm" and z.args[1] == (), "the draw is standard normal", w, why=show(z, 3))
        entry = [n for n in nodes(d) if n.op == "at" and n.args[0] is z]
        if len(entry) != 1:
            if z.shape == ():
                rep.fail("every coordinate has its own draw", w, "one number perturbs the whole block: %s" % show(d, 5)[:300])
            else:
                rep.undecided(rule, w, show(d, 5)[:300])
            return
        e = entry[0]
        rep.require(d is mul(at(half, 0, c), e), rule, w, why="the perturbation is %s, expected %s" % (show(d, 6)[:400], show(mul(at(half, 0, c), e), 6)[:300]))
        off = sub(c, e.args[2])
        st = [n for n in nodes(z.args[3]) if n.op in ("phi", "iter") and n.args[0] == sx.L.id]
        rep.require(bool(st), "the perturbation is drawn in the pass", w, why=show(z, 4))
        if not depends(off, c):
            rep.ok("every coordinate has its own draw", w, "entry %s" % show(e.args[2], 4))
        else:
            rep.fail("every coordinate has its own draw", w, "coordinate c uses entry %s" % show(e.args[2], 4))
    rule = "the blocks of a sweep cover every coordinate once"
    if blk is None:
        rep.undecided(rule, w, "perturbed where %s" % show(cond, 6)[:300])
        return
    lo, hi = blk
    cover(rep, r, sx, lo, hi, prop.shape[0], w, rule)


def block(cond, c, n):
    """(lo, hi) of a condition lo <= c < hi."""
    lo, hi = ZERO, n
    for l in conj(cond):
        if l.op not in ("lt", "le"):
            return None
        P = l.args[0]
        k = coefficient(P, c)
        if k == -1:
            # rest - c <= 0
            b = add(P, c)
            b = b if l.op == "le" else add(b, ONE)
            if lo is not ZERO:
                return None
            lo = b
        elif k == 1:
            b = neg(sub(P, c))
            b = b if l.op == "lt" else add(b, ONE)
            if hi is not n:
                return None
            hi = b
        else:
            return None
    return lo, hi


def coefficient(P, c):
    if P is c:
        return 1
    if P.op != "poly":
        return 0
    for co, m in P.args:
        if len(m) == 1 and m[0][0] is c and m[0][1] == 1:
            return co
    return 0


def cover(rep, r, sx, lo, hi, n, w, rule):
    L = sx.L
    k = iterk(L.id)
    a = sub(subst(lo, {k: add(k, ONE)}), lo)
    ph = [x for x in nodes(lo) if x.op == "phi" and x.args[0] == L.id]
    if ph:
        # a variable that steps through the blocks
        if len(ph) == 1 and lo is ph[0]:
            i, nx = L.phis[ph[0]]
            a = sub(nx, ph[0])
            first = i
        else:
            rep.undecided(rule, w, "block starts at %s" % show(lo, 5))
            return
    else:
        first = subst(lo, {k: ZERO})
    if has_loop(a, L.id):
        rep.undecided(rule, w, "block starts at %s" % show(lo, 5))
        return
    pc = finals(r)
    rep.prove(eqg(first, ZERO), pc, rule, w, "the first block starts at coordinate 0")
    rep.prove(leg(ONE, a), pc, rule, w, "blocks advance")
    want = min_(n, add(lo, a))
    F = list(pc) + [ge(k, ZERO), lt(lo, n)]
    if hi is want:
        rep.ok(rule, w, "block ends where the next starts, at most at ndim")
    else:
        rep.prove(eqg(hi, want), F, rule, w, "block ends where the next starts, at most at ndim")
    # the sweep goes on as long as coordinates are left
    if L.count is not None:
        ok = L.count is fn("ceil", div(n, a)) or L.count is max_(ZERO, fn("ceil", div(n, a)))
        rep.require(ok, rule, w, "the sweep ends after the last coordinate", why="%s blocks of %s" % (show(L.count, 6), show(a, 4)))
    else:
        heads = [e[1] for e in L.exits if e[0] == "head"]
        ok = len(heads) == 1 and heads[0] is le(n, lo)
        rep.require(ok, rule, w, "the sweep ends after the last coordinate", why="; ".join(show(h, 5) for h in heads))


def tasks(tier):
    vec = lambda I: C.array(I, "stepsize", (C.NDIM,), lo=ZERO)
    cf = {"plain": {}, "callback": dict(callback=S.cb), "x0": dict(x0=S.x0vec), "seed": dict(seed=C.SEED),
          "reject": dict(constraints=const("Reject"), callback=S.cb), "reject-x0": dict(constraints=const("Reject"), x0=S.x0vec),
          "vector": dict(stepsize=vec), "vector-reject": dict(stepsize=vec, constraints=const("Reject"), x0=S.x0vec)}
    return [("mcmc/" + n, check, (o, n)) for n, o in cf.items()]
