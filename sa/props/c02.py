"""C02 The best point found so far is never lost."""
from ..models import rows_of
from .common import *

EXPLANATION = ("Population methods: a ghost variable keeps the smallest value any call of the objective has returned; at every callback "
               "and at the return the reported value must be shown not to be above it, by induction over the loops (rows of the "
               "table of best values as universally quantified, minima of arrays below each entry). Samplers: the reported value "
               "must be shown not to be above any entry q of the chain written so far; order relations of the loop counters and the "
               "relation between the tracked minimum and the entry it comes from are inferred as loop invariants first. Instances: "
               "callback sites and returns per configuration.")
MINIMUM = 50


def check(rep, m, opts, name):
    if m in S.SAMPLERS:
        opts = dict(opts, return_all=TRUE)
    r = start(rep, m, opts)
    one = (r.entry, 0, r.entry)
    f = r.fields()
    for e in [e for e in after_import(r) if e.kind == "callback"]:
        pop, d = state_of(e)
        if m in S.SAMPLERS:
            chain(rep, d, e.pc, "state.fun is the smallest of the chain so far", e)
        else:
            rep.prove(leg(d["fun"], e.best), e.pc, "state.fun is not above a value seen so far", e)
    if m in S.SAMPLERS:
        chain(rep, f, finals(r), "result.fun is the smallest of the chain", src_of(f["fun"]) or one)
    else:
        rep.prove(leg(f["fun"], r.I.ghost("$best")), finals(r), "result.fun is not above a value seen so far", src_of(f["fun"]) or one)


def chain(rep, d, pc, rule, w):
    t, n = rows_of(d["funall"])
    q = fresh("j")
    rep.prove(leg(d["fun"], at(t, 0, q)), list(pc) + [le(ZERO, q), lt(q, n), lt(q, d["nit"])], rule, w, ints=True, values=True)


def tasks(tier):
    return each(S.POPULATION + S.SAMPLERS, tier, check)
