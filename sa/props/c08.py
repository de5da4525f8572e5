"""C08 The callback is called exactly once per iteration and only observes."""
from .. import bisim
from .c12 import compare
from ..models import rows_of
from .common import *

EXPLANATION = ("Ghost variables count the callback calls and remember the fields of the latest state. At every callback site nit "
               "must be the number of calls so far (this one included), at the return nit must be the number of calls and every "
               "shared field the remembered one; the field sets must differ by success, status and message only. Runs with and "
               "without callback, and with and without history, are compared coinductively: results, evaluated points and draws "
               "must be the same values. Instances: callback sites, fields and runs per configuration.")
MINIMUM = 200
EXTRA = {"success", "status", "message"}


def check(rep, m, opts, name):
    fields = ["x", "fun", "nfev", "nit", "xall", "funall", "accept_ratio"]
    r = start(rep, m, dict(opts, _track=fields))
    one = (r.entry, 0, r.entry)
    f = r.fields()
    pc = finals(r)
    cbs = [e for e in after_import(r) if e.kind == "callback"]
    if not rep.require(cbs, "callback is called", one, m):
        return
    want = set(f) - EXTRA
    for e in cbs:
        rep.require(e.nargs == 2 and not e.kwargs, "callback is called with population and state", e, "%d arguments" % e.nargs)
        pop, d = state_of(e)
        rep.require(set(d) == want, "state has the fields of the result", e,
                    why="state %s, result %s" % (sorted(d), sorted(want)))
        if "nit" in d:
            rep.prove(eqg(d["nit"], add(e.ncb, ONE)), e.pc, "nit of the states runs 1, 2, ...", e, "state.nit")
        shape = (C.POP, C.NDIM) if m in S.OPTIMIZERS else (C.NDIM,)
        sh = pop.shape if isinstance(pop, T) else None
        rep.require(sh is not None and len(sh) == len(shape) and all(a is b for a, b in zip(sh, shape)),
                    "population or sample is passed", e, why="shape %s" % (sh and [show(s) for s in sh],))
    if rep.prove(eqg(f["nit"], r.I.ghost("$ncb")), pc, "one call per iteration", src_of(f["nit"]) or one, "result.nit"):
        pc = list(pc) + [eq(f["nit"], r.I.ghost("$ncb"))]
    for k in sorted(want, key=lambda k: (k != "nit", k)):
        if k not in fields:
            rep.undecided("last state agrees with the result", one, k)
            continue
        v = r.I.ghost("$cb." + k)
        w = src_of(f[k]) or one
        if k in ("xall", "funall"):
            last_rows(rep, r, k, f[k], v, pc, w)
        else:
            if rep.prove(eqg(f[k], v), pc, "last state agrees with the result", w, k, ints=m in S.SAMPLERS,
                         values=m in S.SAMPLERS) and k == "nit":
                pc = list(pc) + [eq(f[k], v)]


def last_rows(rep, r, k, a, b, pc, w):
    rule = "last state agrees with the result"
    if a is b:
        rep.ok(rule, w, k)
        return
    a, n = rows_of(a)
    if a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
        rep.undecided(rule, w, k)
        return
    rep.prove(eqg(n, r.I.ghost("$cb.rows." + k)), pc, rule, w, "rows of " + k)
    js = [fresh("j") for _ in a.shape]
    x, y = a, b
    F = list(pc) + [lt(js[0], n)]
    for j, n in zip(js, a.shape):
        x, y = at(x, 0, j), at(y, 0, j)
        F.append(lt(j, n))
    rep.prove(eqg(x, y), F, rule, w, k)


def observes(rep, m, opts, name):
    """The same run with and without callback and history."""
    o = {k: v for k, v in opts.items() if k not in ("callback", "return_all", "verbosity", "_pre")}
    r0 = start(rep, m, o)
    where = (r0.entry, 0, r0.entry)
    skip = ("callback", "result.xall", "result.funall")
    hists = [("history", dict(return_all=TRUE))] if m in S.SAMPLERS else [("history", S.hist()), ("best history", dict(return_all=TRUE, verbosity=ZERO))]
    for what, add_ in [("callback", dict(callback=S.cb))] + hists:
        r1 = start(rep, m, dict(o, **add_))
        compare(rep, r0, r1, "asking for a callback or the history changes nothing", "%s, %s" % (m, what), skip=skip, where=where)


def tasks(tier):
    out = []
    for m in S.METHODS:
        cf = S.configs(m, tier)
        seen = set()
        for n, o in cf.items():
            out.append(("%s/%s" % (m, n), check, (m, dict(o, callback=S.cb), n)))
        for n, o in cf.items():
            key = repr(sorted((k, repr(v)) for k, v in o.items() if k not in ("callback", "return_all", "verbosity", "_pre")))
            if key in seen:
                continue
            seen.add(key)
            out.append(("observe/%s/%s" % (m, n), observes, (m, o, n)))
    return out
