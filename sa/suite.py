"""Option configurations the entry points are analysed under.

Every scalar parameter that a configuration does not fix stays symbolic (any value of its
documented range), so a configuration stands for all numeric inputs at once; only options
that select code (constraint names, updating mode, back-end, presence of a callback ...)
are enumerated.
"""
from . import configs as C
from .terms import *

POPULATION = ["cpso", "pso", "de", "na"]
EVOLUTION = ["cmaes", "vdcma"]
OPTIMIZERS = POPULATION + EVOLUTION
SAMPLERS = ["mcmc", "hmc"]
METHODS = OPTIMIZERS + SAMPLERS
WORKERS = sym("workers", (), TWO, None, True)
VPOS = sym("verbosity", (), None, ONE)


def cb(I):
    return C.ufn("callback")


def jac(I):
    return C.ufn("jac")


def x0pop(I):
    return C.array(I, "x0", (C.POP, C.NDIM))


def x0vec(I):
    return C.array(I, "x0", (C.NDIM,))


def x0of(m):
    return x0pop if m in POPULATION else x0vec


def hist(**kw):
    """Record the history with a positive verbosity."""
    d = dict(return_all=TRUE, verbosity=VPOS, _pre=[lt(ZERO, VPOS)])
    d.update(kw)
    return d


def configs(m, tier="quick"):
    """name -> options"""
    out = {}
    out["default"] = {}
    out["x0"] = dict(x0=x0of(m))
    out["callback"] = dict(callback=cb)
    out["seed"] = dict(seed=C.SEED)
    if m in SAMPLERS:
        out["history"] = dict(return_all=TRUE, callback=cb)
        out["reject"] = dict(constraints=const("Reject"), callback=cb, return_all=TRUE)
        out["reject-x0"] = dict(constraints=const("Reject"), callback=cb, x0=x0vec, return_all=TRUE)
        if m == "hmc":
            out["jac"] = dict(jac=jac, callback=cb, return_all=TRUE)
            out["jac-reject"] = dict(jac=jac, constraints=const("Reject"), callback=cb)
        return out
    out["history-best"] = dict(return_all=TRUE, callback=cb, verbosity=ZERO)
    out["history"] = hist(callback=cb)
    out["history-x0"] = hist(callback=cb, x0=x0of(m))
    for be in ("threading", "loky", "mpi"):
        out["workers-" + be] = dict(backend=const(be), workers=WORKERS, callback=cb)
    if m in POPULATION:
        for u in ("immediate", "deferred"):
            out[u] = dict(updating=const(u), callback=cb)
            out["history-" + u] = hist(updating=const(u), callback=cb)
            if m in ("cpso", "pso"):
                out["shrink-" + u] = dict(updating=const(u), constraints=const("Shrink"), callback=cb)
                out["shrink-x0-" + u] = dict(updating=const(u), constraints=const("Shrink"), callback=cb, x0=x0pop)
            if m == "de":
                out["random-" + u] = dict(updating=const(u), constraints=const("Random"), callback=cb)
    if m == "cpso":
        for u in ("immediate", "deferred"):
            out["nogamma-" + u] = dict(competitivity=NONE, updating=const(u), callback=cb)
    if m == "de":
        for s in ("rand1bin", "rand2bin", "best1bin", "best2bin"):
            for u in ("immediate", "deferred"):
                out[s + "-" + u] = dict(strategy=const(s), updating=const(u), callback=cb)
    if m in EVOLUTION:
        out["penalize"] = dict(constraints=const("Penalize"), callback=cb)
        out["penalize-history"] = hist(constraints=const("Penalize"), callback=cb)
        out["penalize-x0"] = dict(constraints=const("Penalize"), callback=cb, x0=x0vec)
    if tier == "thorough":
        for u in ("immediate", "deferred") if m in POPULATION else (None,):
            d = dict(updating=const(u)) if u else {}
            s = "-" + u if u else ""
            out["x0-seed" + s] = dict(d, x0=x0of(m), seed=C.SEED, callback=cb)
            out["history-best" + s] = dict(d, return_all=TRUE, callback=cb, verbosity=ZERO)
            con = {"cpso": "Shrink", "pso": "Shrink", "de": "Random", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
            if con:
                out["constrained-history" + s] = hist(**dict(d, constraints=const(con), callback=cb, x0=x0of(m)))
                out["constrained-best" + s] = dict(d, constraints=const(con), callback=cb, return_all=TRUE, verbosity=ZERO)
                out["constrained-seed" + s] = dict(d, constraints=const(con), seed=C.SEED)
            if m == "de":
                for st in ("rand1bin", "rand2bin", "best2bin"):
                    out["constrained-" + st + s] = hist(**dict(d, constraints=const(con), strategy=const(st), callback=cb))
            if m == "cpso":
                out["nogamma-shrink" + s] = dict(d, competitivity=NONE, constraints=const("Shrink"), callback=cb)
        out["workers-all"] = dict(workers=num(-1), backend=const("threading"), callback=cb)
        out["history-threading"] = hist(workers=WORKERS, backend=const("threading"), callback=cb)
        out["history-mpi"] = hist(workers=WORKERS, backend=const("mpi"), callback=cb)
    return out
