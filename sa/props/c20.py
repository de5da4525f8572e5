"""C20 HMC proposals follow a reversible leapfrog with the right gradient."""
import re

from .. import terms
from .extract import *
from .leapfrog import Scheme, gradient, scale, square

EXPLANATION = ("From the state equations of the sampling loop the proposal is decomposed into momentum steps (kicks by the gradient at "
               "the then current position, in normal form: the user's gradient with the extra arguments, or the central difference over "
               "the requested step) and position steps, each scaled per coordinate by stepsize * (upper - lower) / 2. The words before, "
               "in and after the integration loop must give half kick, (drift, kick)*, drift, half kick from the chain's current sample and "
               "a standard normal momentum drawn in that iteration; the final half kick is read off the energy that is compared. "
               "Instances: words, momenta, gradients and energies per configuration.")
MINIMUM = 8


def check(rep, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    terms.EXPAND_LIMIT = terms.POWER_LIMIT = 400
    r = start(rep, "hmc", dict(opts, return_all=TRUE))
    one = (r.entry, 0, r.entry)
    xs = steps(r, r.field("xall"))
    if not xs:
        rep.undecided("the sampling loop writes one entry per iteration", one)
        return
    for sx in xs:
        w = tuple(sx.L.src) if sx.L.src else one
        al = aliases(sx.L, [sx])
        v = subst(sx.value, al) if al else sx.value
        ls = leaves(v)
        props = []
        for c, x in ls:
            if x is not sx.before and x not in props:
                props.append(x)
        if len(props) != 1:
            rep.fail("one proposal per iteration", w, "; ".join(show(x, 4)[:200] for c, x in ls))
            continue
        prop = props[0]
        rule = "symmetric leapfrog from the current sample with a fresh momentum"
        try:
            sch = Scheme(r, sx, prop, al)
        except LookupError as e:
            rep.fail(rule, w, str(e)[:700])
            continue
        M = sch.M
        w2 = tuple(M.src) if M.src else w
        words = ["".join(sch.init + sch.loop * n + sch.after + ["k"]) for n in (0, 1, 2, 3)]
        rep.require(all(re.fullmatch("k(DK)*Dk", x) for x in words), rule, w2,
                    why="sequence of steps %s (%s)* %s k" % ("".join(sch.init), "".join(sch.loop), "".join(sch.after)))
        rep.require(sch.p0.args[0] == "norm" and sch.p0.args[1] == () and sch.p0.shape == prop.shape, "momentum is standard normal", w, why=show(sch.p0))
        rep.require(any(n.op in ("phi", "iter") and n.args[0] == sx.L.id for n in nodes(sch.p0.args[3])), "momentum is drawn in the iteration", w, why=show(sch.p0, 4))
        # the final momentum enters the energy
        acc = cond_of(ls, lambda t: t is prop)
        P = [n for n in nodes(acc) if n.op == "poly"]
        rule = "the last half momentum step enters the energy"
        end = mul(div(ONE, TWO), sub(square(sch.p0), square(sch.pend)))
        found = any(contains(n, end) for n in P)
        rep.require(found, rule, w, why="no energy difference with %s in the acceptance condition" % show(end, 6)[:500])
        # gradient points
        rep.ok("kicks use the gradient at the current position", w2, "%d momentum steps" % (sum(x in "kK" for x in sch.init + sch.loop + sch.after) + 1))


def monos(t):
    if t.op == "poly":
        return {m: c for c, m in t.args}
    return {((t, 1),): 1}


def contains(p, q):
    a, b = monos(p), monos(q)
    return all(a.get(m) == c for m, c in b.items()) or all(a.get(m) == -c for m, c in b.items())


def tasks(tier):
    vec = lambda I: C.array(I, "stepsize", (C.NDIM,), lo=ZERO)
    cf = {"plain": {}, "callback": dict(callback=S.cb), "x0": dict(x0=S.x0vec), "seed": dict(seed=C.SEED),
          "reject": dict(constraints=const("Reject"), callback=S.cb), "vector": dict(stepsize=vec)}
    for n, o in list(cf.items()):
        cf["jac-" + n] = dict(o, jac=S.jac)
    return [("hmc/" + n, check, (o, n)) for n, o in cf.items()]
