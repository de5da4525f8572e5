"""C07 The caller's data is never modified."""
from .common import *

EXPLANATION = ("Effect analysis: every in-place write of the interpreted program (subscript and slice stores, augmented "
               "assignment to arrays, in-place methods, numpy out= arguments, dictionary updates) is resolved to the objects "
               "it may reach through aliases, views and joins; none may be an object the caller passed in. Instances: every "
               "write of every configuration, all parameters given as arrays where the documentation allows.")
MINIMUM = 300


def vec(name):
    return lambda I: C.array(I, name, (C.NDIM,))


def check(rep, m, opts, name):
    r = start(rep, m, opts)
    scan(rep, r)


def scan(rep, r):
    n = 0
    for e in after_import(r):
        if e.kind == "write":
            n += 1
            o = e.origin
            rep.require(not o, "no write reaches an object of the caller", e, "write to %s" % (e.path,),
                        why="the store may modify the caller's %s" % str(o).replace("param:", ""))
        elif e.kind == "mutate_arg":
            rep.fail("no write reaches an object of the caller", e, e.name)
    rep.ok("writes of the call are resolved", (r.entry, 0, r.entry), "%d writes" % n)


def toplevel(rep, kind, m):
    from .c12 import call_by_name

    r = call_by_name(rep, kind, m, {})
    scan(rep, r)


def bench(rep, name):
    from .c15 import run_benchmark

    r = run_benchmark(rep, name)
    for e in r.events:
        if e.kind == "write":
            rep.require(not e.origin, "no write reaches an object of the caller", e, name,
                        why="the store may modify the point given to the function")
    rep.ok("writes of the call are resolved", ("stochopy/factory/benchmark.py", 0, name), name)


def tasks(tier):
    out = each(S.METHODS, tier, check)
    for m in S.SAMPLERS:
        for n, o in S.configs(m, tier).items():
            out.append(("%s/%s+stepsize" % (m, n), check, (m, dict(o, stepsize=vec("stepsize")), n)))
    from .c15 import NAMES

    for f in NAMES:
        out.append(("factory/" + f, bench, (f,)))
    for m in S.OPTIMIZERS:
        out.append(("minimize/" + m, toplevel, ("optimize", m)))
    for m in S.SAMPLERS:
        out.append(("sample/" + m, toplevel, ("sample", m)))
    return out
