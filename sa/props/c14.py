"""C14 The objective is always called as fun(x, *args) with x in user coordinates."""
from .common import *

EXPLANATION = ("Every call site that the interpretation reaches with the user's objective or gradient is an instance: the point "
               "must be an array of shape (number of bounds,) and the remaining arguments exactly the caller's args, unpacked. "
               "With an initial guess the first call of the run must receive it (entry k of a population), with CMA-ES and "
               "VD-CMA the candidate must reduce to the guess when its normal draws are replaced by zero.")
MINIMUM = 250
ARGS = mk("starred", (sym("args"),), None)


def call_shape(rep, e, extras, what):
    sh = e.x.shape
    rep.require(sh is not None and len(sh) == 1 and sh[0] is C.NDIM, "one point with one entry per bound", e, what,
                why="shape %s" % (None if sh is None else [show(s, 3) for s in sh],))
    rep.require(tuple(e.extras) == extras, "followed by exactly the extra arguments", e, what,
                why="passes (%s)" % ", ".join(show(x, 3) for x in e.extras))


def zero_draws(t):
    m = {}
    for n in nodes(t):
        if n.op == "rnd" and n.args[0] == "norm":
            m[n] = full(n.shape, ZERO) if n.shape else ZERO
    return subst(t, m) if m else t


def check(rep, m, opts, name):
    r = start(rep, m, opts)
    evs = [e for e in after_import(r) if e.kind in ("eval", "grad")]
    rep.require(evs, "the objective is called", (r.entry, 0, r.entry), m)
    extras = (ARGS,) if opts.get("args", True) is True else ()
    for e in evs:
        call_shape(rep, e, extras, "objective" if e.kind == "eval" else "gradient")
        if e.kind == "eval":
            rep.require(e.name == "fun", "the function called is the caller's", e, e.name)
    if "x0" not in opts:
        return
    e = [x for x in evs if x.kind == "eval"][0]
    x0 = [t for t in [r.I.val(r.params["x0"])]][0]
    j = fresh("j")
    got = at(e.x, 0, j)
    F = list(e.pc) + [lt(j, C.NDIM), lt(box_lo(r, j), box_hi(r, j))]
    if m in S.POPULATION:
        ks = [n for n in nodes(e.x) if n.op == "iter"]
        k = index_of(e)
        want = at(at(x0, 0, k), 0, j)
        rep.prove(eqg(got, want), F, "the first points are the initial guess", e, "initial population")
        n = C.POP
        L = e.loops[-1] if e.loops else None
        full_ = L is not None and LOOPCOUNT(L) is n
        if L is not None and not full_:
            full_ = "mpi" in name
        rep.require(full_, "the first points are the initial guess", e, "all of the initial population is evaluated")
    elif m in S.SAMPLERS:
        rep.prove(eqg(got, at(x0, 0, j)), F, "the first points are the initial guess", e, "first sample")
    else:
        # loop entry: first generation
        g = first(zero_draws(first(got)))
        # a feasible guess has standardised coordinates between -1 and 1
        lo, hi, v = box_lo(r, j), box_hi(r, j), at(x0, 0, j)
        std = div(sub(mul2(TWO, v), add(lo, hi)), sub(hi, lo))
        for n in nodes(g):
            for a in n.args if n.op == "min" else ():
                for a, sg in ((a, ONE), (neg(a), ONE)):
                    if a.op != "min" and not is_num(a) and PR.clear_denominators(sub(a, std), IN.facts(F)) is ZERO:
                        F = F + [le(num(-1), a), le(a, ONE)]
        rep.prove(eqg(g, at(x0, 0, j)), F, "candidates are sampled around the initial guess", e,
                  "centre of the first generation")


def first(t):
    """Value in the first pass of the enclosing loops."""
    for _ in range(8):
        m = {}
        for n in nodes(t):
            if n.op == "phi" and n.args[0] in IN.LOOPS and n in IN.LOOPS[n.args[0]].phis:
                m[n] = IN.LOOPS[n.args[0]].phis[n][0]
            elif n.op == "iter":
                m[n] = ZERO if IN.LOOPS.get(n.args[0]) is not None and IN.LOOPS[n.args[0]].kind == "While" else n
        m = {a: b for a, b in m.items() if a is not b}
        if not m:
            return t
        t = subst(t, m)
    return t


def LOOPCOUNT(L):
    i = IN.LOOPS.get(L)
    return i.count if i is not None else None


def index_of(e):
    """The loop counter that selects the individual evaluated."""
    return iterk(e.loops[-1]) if e.loops else ZERO


def bounds_of(r):
    return r.I.val(r.params["bounds"])


def box_lo(r, j):
    return at(at(bounds_of(r), 1, ZERO), 0, j)


def box_hi(r, j):
    return at(at(bounds_of(r), 1, ONE), 0, j)


def tasks(tier):
    out = each(S.METHODS, tier, check)
    for m in S.METHODS:
        out.append((m + "/no-args", check, (m, dict(args=lambda I: IN.Tup(())), "no-args")))
        if m in S.POPULATION:
            for u in ("immediate", "deferred"):
                out.append(("%s/x0-%s" % (m, u), check, (m, dict(x0=S.x0pop, updating=const(u)), "x0")))
            for be in ("threading", "loky"):
                out.append(("%s/x0-%s" % (m, be), check, (m, dict(x0=S.x0pop, backend=const(be), workers=S.WORKERS), "x0")))
            out.append(("%s/x0-mpi" % m, check_mpi, (m,)))
    return out


def check_mpi(rep, m):
    r = start(rep, m, dict(x0=S.x0pop, backend=const("mpi"), workers=S.WORKERS))
    from ..models import mpi_syms

    rank, size = mpi_syms()
    e = [x for x in after_import(r) if x.kind == "eval"][0]
    x0 = r.I.val(r.params["x0"])
    j = fresh("j")
    k = add(rank, mul2(size, index_of(e)))
    F = list(e.pc) + [lt(j, C.NDIM), lt(box_lo(r, j), box_hi(r, j))]
    rep.prove(eqg(at(e.x, 0, j), at(at(x0, 0, k), 0, j)), F, "the first points are the initial guess", e, "initial population")
