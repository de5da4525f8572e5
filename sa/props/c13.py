"""C13 Malformed requests are refused before anything is evaluated."""
from .c12 import direct_call, observe
from .common import *

EXPLANATION = ("Each entry point is interpreted with one malformed argument (symbolic value outside the documented range, wrong rank, "
               "wrong size, not callable, unknown name): every path must raise before the first objective call. With all "
               "parameters inside their closed documented ranges no raise statement may be reachable before the first call. "
               "Instances: parameter and kind of malformation per method.")
MINIMUM = 150
INF = None


def out_of(name, lo, hi, integer=False, open_lo=False):
    """Symbolic values below and above a closed range."""
    v = sym(name, (), None, None, integer)
    out = []
    if lo is not None:
        out.append(("below", dict({name: v}, _pre=[le(v, num(lo)) if open_lo else lt(v, num(lo))])))
    if hi is not None:
        out.append(("above", dict({name: v}, _pre=[lt(num(hi), v)])))
    return out


def inside(name, lo, hi, integer=False, open_lo=False):
    v = sym(name, (), None, None, integer)
    pre = []
    if lo is not None:
        pre.append(lt(num(lo), v) if open_lo else le(num(lo), v))
    if hi is not None:
        pre.append(le(v, num(hi)))
    return v, pre


def arr(name, *shape):
    return lambda I: C.array(I, name, shape)


N = sym("n0", (), ONE, None, True)
OTHER = sym("d0", (), ONE, None, True)
RANGES = {
    "pso": [("inertia", 0, 1), ("cognitivity", 0, 4), ("sociability", 0, 4)],
    "cpso": [("inertia", 0, 1), ("cognitivity", 0, 4), ("sociability", 0, 4), ("competitivity", 0, 2)],
    "de": [("mutation", 0, 2), ("recombination", 0, 1)],
    "na": [("nrperc", 0, 1, False, True)],
    "cmaes": [("sigma", 0, None, False, True), ("muperc", 0, 1, False, True)],
    "vdcma": [("sigma", 0, None, False, True), ("muperc", 0, 1, False, True)],
    "mcmc": [("perc", 0, 1)],
    "hmc": [("nleap", 1, None, True)],
}
DE_MIN = {"rand1bin": 4, "rand2bin": 6, "best1bin": 3, "best2bin": 5}


def bad(m):
    """name -> options"""
    out = OrderedDict()
    for k, v in (("number", num(3)), ("zero", ZERO), ("string", const("callable"))):
        out["fun " + k] = dict(fun=v)
        out["callback " + k] = dict(callback=v)
        if m == "hmc":
            out["jac " + k] = dict(jac=v)
    out["bounds 1-D"] = dict(bounds=arr("bounds", C.NDIM))
    out["bounds 3-D"] = dict(bounds=arr("bounds", C.NDIM, TWO, TWO))
    out["bounds 3 columns"] = dict(bounds=arr("bounds", C.NDIM, num(3)))
    out["bounds 1 column"] = dict(bounds=arr("bounds", C.NDIM, ONE))
    out["bounds scalar"] = dict(bounds=sym("bounds"))
    for r in RANGES[m]:
        for k, o in out_of(*r):
            out["%s %s" % (r[0], k)] = o
    if m in S.POPULATION:
        out["x0 1-D"] = dict(x0=arr("x0", C.NDIM), _pre=[])
        out["x0 1-D population"] = dict(x0=arr("x0", C.POP))
        out["x0 3-D"] = dict(x0=arr("x0", C.POP, C.NDIM, ONE))
        if m == "de":
            out["x0 one individual less, smallest population"] = dict(x0=arr("x0", TWO, C.NDIM), popsize=num(3))
        out["x0 wrong popsize"] = dict(x0=arr("x0", N, C.NDIM), _pre=[ne(N, C.POP)])
        out["x0 wrong dimension"] = dict(x0=arr("x0", C.POP, OTHER), _pre=[ne(OTHER, C.NDIM)])
        out["x0 one more individual"] = dict(x0=arr("x0", add(C.POP, ONE), C.NDIM))
        out["x0 one more coordinate"] = dict(x0=arr("x0", C.POP, add(C.NDIM, ONE)))
    elif m in S.EVOLUTION:
        out["x0 2-D"] = dict(x0=arr("x0", C.POP, C.NDIM))
        out["x0 2-D square"] = dict(x0=arr("x0", C.NDIM, C.NDIM))
        out["x0 wrong dimension"] = dict(x0=arr("x0", OTHER), _pre=[ne(OTHER, C.NDIM)])
        out["x0 one more coordinate"] = dict(x0=arr("x0", add(C.NDIM, ONE)))
    else:
        out["x0 wrong dimension"] = dict(x0=arr("x0", OTHER), _pre=[ne(OTHER, C.NDIM)])
        out["x0 one more coordinate"] = dict(x0=arr("x0", add(C.NDIM, ONE)))
        out["stepsize wrong size"] = dict(stepsize=arr("stepsize", OTHER), _pre=[ne(OTHER, C.NDIM)])
        out["stepsize one more"] = dict(stepsize=arr("stepsize", add(C.NDIM, ONE)))
        out["stepsize 2-D"] = dict(stepsize=arr("stepsize", C.NDIM, C.NDIM), _pre=[lt(ONE, C.NDIM)])
    if m in S.OPTIMIZERS:
        p = sym("popsize", (), None, None, True)
        if m != "de":
            out["popsize"] = dict(popsize=p, _pre=[lt(p, TWO)])
        else:
            for s, k in DE_MIN.items():
                out["popsize " + s] = dict(popsize=p, strategy=const(s), _pre=[lt(p, num(k))])
            out["strategy"] = dict(strategy=const("rand3bin"))
    if m in ("cpso", "pso", "de"):
        out["updating"] = dict(updating=const("sometimes"))
        out["updating None"] = dict(updating=NONE)
    if m != "na":
        out["constraints"] = dict(constraints=const("no such constraint"))
        other = "Random" if m in ("cpso", "pso") else "Shrink"
        out["constraints of another method"] = dict(constraints=const(other))
    return out


def ne(a, b):
    return bnot(eq(a, b))


def refused(rep, m, what, opts):
    rule = "malformed request is refused before any evaluation"
    from .. import configs

    keep = configs.setup
    box = []

    def spy(*a, **k):
        r = keep(*a, **k)
        box.append(r)
        return r

    configs.setup = spy
    try:
        try:
            r = direct_call(rep, m, opts)
            I, res = r.I, r.result
            w = (r.fn.module.file, r.fn.node.lineno, r.fn.name)
        except Unsupported as e:
            I, f = box[-1]
            evs = [x for x in I.events if x.kind == "eval" and x.stack and x.stack[0] == "<caller>"]
            if evs:
                rep.fail(rule, evs[0], "%s: the objective is called" % what)
                return
            raise
    finally:
        configs.setup = keep
    evs = [x for x in after_import(r) if x.kind == "eval"]
    rep.require(not evs, rule, evs[0] if evs else w, what, why="the objective is called")
    rep.require(res is None, rule, w, what, why="a result is returned")


def accepted(rep, m, name, extra):
    rule = "values inside the documented ranges are accepted"
    opts, pre = dict(extra), list(extra.get("_pre", ()))
    for rg in RANGES[m]:
        if rg[0] in extra:
            continue
        v, p = inside(*rg)
        opts[rg[0]] = v
        pre += p
    if m == "de" and "popsize" not in extra:
        p = sym("popsize", (), None, None, True) if "x0" not in extra else C.POP
        s = extra.get("strategy")
        opts["popsize"] = p
        pre.append(le(num(DE_MIN[cval(s) if s is not None else "best1bin"]), p))
    if pre:
        opts["_pre"] = pre
    r = direct_call(rep, m, opts)
    w = (r.fn.module.file, r.fn.node.lineno, r.fn.name)
    bad_ = [e for e in after_import(r) if e.kind == "raise" and e.before[0] is ZERO]
    for e in bad_:
        rep.fail(rule, e, "%s: raises %s when %s" % (name, e.exc, " and ".join(show(c, 4) for c in e.pc[-2:])[:300]))
    if not bad_:
        rep.ok(rule, w, name)
    rep.require(r.result is not None and any(e.kind == "eval" for e in after_import(r)), rule, w, name, why="no result")


def good(m, tier):
    out = OrderedDict()
    out["ranges"] = dict(callback=S.cb)
    out["x0"] = dict(x0=S.x0of(m))
    for r in RANGES[m]:
        n, lo, hi = r[:3]
        op = len(r) > 4 and r[4]
        if lo is not None and not op:
            out["%s=%s" % (n, lo)] = {n: num(lo)}
        if hi is not None:
            out["%s=%s" % (n, hi)] = {n: num(hi)}
    if m == "cpso":
        out["competitivity=None"] = dict(competitivity=NONE)
    if m in S.OPTIMIZERS and m != "de":
        out["popsize=2"] = dict(popsize=TWO)
    if m == "de":
        for s, k in DE_MIN.items():
            out["strategy " + s] = dict(strategy=const(s))
            out["popsize %s=%d" % (s, k)] = dict(strategy=const(s), popsize=num(k))
    con = {"cpso": "Shrink", "pso": "Shrink", "de": "Random", "cmaes": "Penalize", "vdcma": "Penalize", "mcmc": "Reject", "hmc": "Reject"}.get(m)
    if con:
        out["constraints " + con] = dict(constraints=const(con))
    if m in ("cpso", "pso", "de"):
        for u in ("immediate", "deferred"):
            out["updating " + u] = dict(updating=const(u))
    if m in S.SAMPLERS:
        out["stepsize vector"] = dict(stepsize=arr("stepsize", C.NDIM))
    if m == "hmc":
        out["jac"] = dict(jac=S.jac)
    return out


def tasks(tier):
    out = []
    for m in S.METHODS:
        for k, o in bad(m).items():
            out.append(("refused/%s/%s" % (m, k), refused, (m, k, o)))
        for k, o in good(m, tier).items():
            out.append(("accepted/%s/%s" % (m, k), accepted, (m, k, o)))
    return out
