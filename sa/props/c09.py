"""C09 Iteration and evaluation counters are exact."""
from .common import *

EXPLANATION = ("A ghost counter is added to the interpreted program that every objective call increments (over all worker "
               "processes and MPI ranks). The reported nfev, in the result and in every callback state, must be that counter; "
               "it must also be popsize times the reported nit, which must lie between 1 and maxiter (samplers: maxiter at the "
               "end). The equalities are decided on value terms with loops as recurrences. Instances: counter fields of "
               "each result and callback site in each configuration.")
MINIMUM = 150


def check(rep, m, opts, name):
    r = start(rep, m, opts)
    f = r.fields()
    pc = finals(r)
    one = (r.entry, 0, r.entry)
    sites = [("result", f, r.I.ghost("$nfev"), pc, src_of(f.get("nfev", ONE)) or one)]
    for e in r.evs("callback"):
        sites.append(("callback state", state_of(e)[1], e.nfev, e.pc, e.src))
    for what, d, ghost, F, where in sites:
        for k in ("nit",) if m == "mcmc" else ("nfev", "nit"):
            if not rep.require(k in d, "counter is reported", where, "%s.%s" % (what, k)):
                return
        if "nfev" in d:
            rep.prove(eqg(d["nfev"], ghost), F, "nfev is the number of objective calls", where, what)
        if m in S.OPTIMIZERS:
            rep.prove(eqg(d["nfev"], mul2(C.POP, d["nit"])), F, "every iteration evaluates popsize candidates", where, what)
        rep.prove(leg(d["nit"], C.MAXIT), F, "nit does not exceed maxiter", where, what)
        rep.prove(leg(ONE, d["nit"]), F, "nit counts the iterations done", where, what)
        if m in S.SAMPLERS and what == "result":
            rep.prove(eqg(d["nit"], C.MAXIT), F, "samplers generate maxiter samples", where, what)


def tasks(tier):
    return each(S.METHODS, tier, check)
