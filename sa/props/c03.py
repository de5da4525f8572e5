"""C03 The recorded history is complete and faithful."""
from ..models import rows_of
from .common import *
from ..models import UNDEF

EXPLANATION = ("At every callback the number of recorded rows must be the number of calls, the last row must be the leading rows of the "
               "points shown (a fraction verbosity of them; the individual with the smallest value of the generation when verbosity "
               "is zero, for which a smallest entry of a table whose rows are the values of the points shown must be named), its "
               "values must be those of exactly these points, and the earlier rows must be the ones of the previous call (ghost "
               "variable). The result must hold the rows of the last call. Rows are universally quantified, loops by induction. "
               "Instances: callback sites and returns of every configuration with history.")
MINIMUM = 100
FIELDS = ["xall", "funall", "nit"]


def check(rep, m, opts, name):
    r = start(rep, m, dict(opts, callback=S.cb, _track=FIELDS))
    one = (r.entry, 0, r.entry)
    f = r.fields()
    cbs = [e for e in after_import(r) if e.kind == "callback"]
    if not rep.require("xall" in f and "funall" in f and cbs, "the history is returned", one):
        return
    pen = opts.get("constraints") is not None and opts["constraints"] is const("Penalize")
    sampler = m in S.SAMPLERS
    for e in cbs:
        pop, d = state_of(e)
        if not rep.require("xall" in d and "funall" in d and "nit" in d, "the history is in the state", e):
            continue
        t, n = rows_of(d["xall"])
        v, nv = rows_of(d["funall"])
        nit = d["nit"]
        rep.prove(eqg(nit, add(e.ncb, ONE)), e.pc, "one call per iteration", e)
        F = list(e.pc)
        for a, b in ((nit, r.params["maxiter"]), (ONE, nit)):
            if PR.Prover().prove(leg(a, b), e.pc):
                F.append(le(a, b))
        rep.prove(eqg(n, nit), F, "one row of xall per iteration", e)
        rep.prove(eqg(nv, nit), F, "one row of funall per iteration", e)
        shape = len(t.shape or ()), len(v.shape or ())
        if not rep.require(shape == ((2, 1) if sampler else (3, 2)), "shape of the history", e, why="%d and %d dimensions" % shape):
            continue
        last = sub(nit, ONE)
        row, val = at(t, 0, last), at(v, 0, last)
        if sampler:
            same(rep, row, pop, [], list(e.pc), "the last row is the sample shown", e, ints=True)
            rep.prove(pt(val, obj_at(r, row)), e.pc, "the last value is that of the sample", e, ints=True)
        elif is_zero(opts.get("verbosity")):
            best(rep, r, row, val, pop, e, pen)
        else:
            leading(rep, r, row, val, pop, e, pen)
        for k, tab in (("xall", t), ("funall", v)):
            kept(rep, tab, e.prev[k], e, k, last, sampler)
    pc = finals(r)
    for k in ("xall", "funall"):
        a, n = rows_of(f[k])
        w = src_of(f[k]) or one
        rep.prove(eqg(n, r.I.ghost("$ncb")), pc, "one row per iteration in the result", w, k)
        g = r.I.ghost("$cb." + k)
        if a is g:
            rep.ok("the result has the rows of the last state", w, k)
        else:
            same(rep, a, g, [n], list(pc), "the result has the rows of the last state", w, ints=sampler, what=k)


def is_zero(v):
    return v is ZERO


def same(rep, a, b, limits, F, rule, w, ints=False, what=""):
    """Two arrays agree for all indices (below the limits given for the first ones)."""
    if not isinstance(b, T) or a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
        rep.require(False, rule, w, what, why="shapes %s and %s" % (shown(a), shown(b)))
        return
    x, y = a, b
    for i, s in enumerate(a.shape):
        j = fresh("j")
        F += [le(ZERO, j), lt(j, s)]
        if i < len(limits):
            F.append(lt(j, limits[i]))
        x, y = at(x, 0, j), at(y, 0, j)
    rep.prove(eqg(x, y), F, rule, w, what, ints=ints)


def shown(t):
    return [show(s, 4) for s in t.shape] if isinstance(t, T) and t.shape is not None else "?"


def kept(rep, t, old, e, k, last, sampler):
    """Rows recorded before this call are those of the previous call."""
    rule = "earlier rows stay as recorded"
    if old is UNDEF:
        rep.ok(rule, e, k + ": first call")
        return
    if t is old:
        rep.ok(rule, e, k)
        return
    same(rep, t, old, [last], list(e.pc), rule, e, ints=sampler, what=k)


def leading(rep, r, row, val, pop, e, pen):
    K = row.shape[0]
    rep.require(val.shape[0] is K, "values of exactly the points recorded", e, why="%s points, %s values" % (show(K), show(val.shape[0])))
    if not rep.require(isinstance(pop, T) and len(pop.shape or ()) == 2, "the population is shown", e):
        return
    want = mul2(S.VPOS, pop.shape[0])
    rep.prove(true(le(K, add(want, ONE))), e.pc, "the fraction verbosity of the population", e, "at most")
    rep.prove(true(le(want, add(K, ONE))), e.pc, "the fraction verbosity of the population", e, "at least")
    b, j = fresh("b"), fresh("j")
    F = list(e.pc) + [le(ZERO, b), lt(b, K), lt(b, pop.shape[0]), le(ZERO, j), lt(j, C.NDIM)]
    rep.prove(eqg(at(at(row, 0, b), 0, j), at(at(pop, 0, b), 0, j)), F, "the last row is the leading part of the population shown", e)
    if not pen:
        rep.prove(pt(at(val, 0, b), obj_at(r, at(row, 0, b))), F[:-2], "the values are those of the points of the row", e)


def best(rep, r, row, val, pop, e, pen):
    rule = "the best individual of the generation"
    if not rep.require(row.shape[0] is ONE and val.shape[0] is ONE, "one individual per iteration", e, why=shown(row)):
        return
    x, v = at(row, 0, ZERO), at(val, 0, ZERO)
    j = fresh("j")
    F = list(e.pc) + [le(ZERO, j), lt(j, C.NDIM)]
    for T_ in tables(v):
        if not PR.Prover().prove(eqg(v, at(T_, 0, argmin(T_))), e.pc):
            continue
        # the point as a function of the index of the smallest value
        q = fresh("b")
        G = F + [le(ZERO, q), lt(q, pop.shape[0])]
        m = {am: q for am in indices(x) if am is argmin(T_) or equal_tables(am.args[0], T_, e.pc)}
        if not m or not PR.Prover().prove(eqg(at(subst(x, m), 0, j), at(at(pop, 0, q), 0, j)), G):
            continue
        if not pen:
            q = fresh("b")
            G = list(e.pc) + [le(ZERO, q), lt(q, pop.shape[0])]
            rep.prove(pt(at(T_, 0, q), obj_at(r, at(pop, 0, q))), G, "the values compared are those of the points shown", e)
        rep.ok(rule, e)
        return
    rep.require(False, rule, e, why="no table of values has its smallest entry there: value %s, point %s" % (show(v, 5)[:200], show(at(x, 0, j), 5)[:200]))


def indices(x):
    return list(dict.fromkeys(n for n in nodes(x) if n.op == "argmin" and not free_bvs(n)))


def equal_tables(a, b, F):
    if a.shape is None or b.shape is None or len(a.shape) != 1 or len(b.shape) != 1 or a.shape[0] is not b.shape[0]:
        return False
    q = fresh("b")
    return PR.Prover(budget=5000).prove(eqg(at(a, 0, q), at(b, 0, q)), list(F) + [le(ZERO, q), lt(q, a.shape[0])])


def tables(v):
    """Arrays of values whose smallest entry v may be."""
    out = {}
    for n in nodes(v):
        if n.op == "argmin" and not free_bvs(n):
            out[n.args[0]] = 1
        if n.op == "amin" and not free_bvs(n):
            out[n.args[0]] = 1
    return list(out)


def tasks(tier):
    out = []
    for m in S.METHODS:
        for n, o in S.configs(m, tier).items():
            if o.get("return_all") is not None:
                out.append(("%s/%s" % (m, n), check, (m, o, n)))
    return out
