"""C05 Seeded runs are reproducible."""
from .common import *

EXPLANATION = ("Value-dependence dataflow over the interpreted program: every leaf that reaches a field of the result, a "
               "point handed to the objective or an argument of the callback is collected through joins, loop entries and "
               "back edges; with a seed none may be the incoming generator state, a clock, a process attribute or "
               "uninitialised memory, and without a seed the generator is never reset. Instances: every draw, seeding "
               "call, library-level write and result field of each configuration.")
MINIMUM = 300
BAD = {"world": "the clock or the process environment", "entropy": "a generator seeded from entropy",
       "uninit": "uninitialised memory", "extern": "an external call"}


def names(o):
    return {a.args[0] for a in o.get("sym", ())}


def dirty(t, seeded, history=False):
    o = origins(t)
    bad = [BAD[k] for k in o if k in BAD and not (history and k == "uninit")]
    ns = names(o)
    if seeded and "rng0" in ns:
        bad.append("the generator state left by earlier code")
    if not seeded and "seeded" in o:
        bad.append("a generator state that the call fixed itself")
    if "mpi_rank" in ns and not seeded:
        pass
    return bad


def check(rep, m, opts, name):
    seeded = opts["seed"] is not NONE
    seed = opts.get("seed")
    r = start(rep, m, opts)
    evs = after_import(r)
    for e in evs:
        if e.kind == "seed":
            if seeded:
                rep.require(e.value is seed, "generator is seeded with the given seed", e, show(e.value, 3))
            else:
                rep.fail("generator is reset although no seed was given", e, show(e.value, 3))
        elif e.kind == "set_state":
            o = origins(e.value)
            rep.require(not dirty(e.value, seeded), "restored generator state is the current one", e,
                        why=", ".join(dirty(e.value, seeded)))
        elif e.kind == "draw":
            b = dirty(e.state, seeded)
            rep.require(not b, "draw comes from the generator the seed initialises", e, "draw %s" % e.kind2, why=", ".join(b))
        elif e.kind == "extern":
            rep.require(e.name in ("numpy.errstate",), "only modelled sources of values", e, e.name)
        elif e.kind in ("write",) and e.lib:
            rep.fail("data kept between calls is written", e, str(e.path))
        elif e.kind == "global_write":
            rep.fail("data kept between calls is written", e, e.name)
        elif e.kind in ("eval", "grad"):
            b = dirty(e.x, seeded)
            rep.require(not b, "evaluated point depends on arguments and seed only", e, why=", ".join(b))
        elif e.kind == "callback":
            pop, f = state_of(e)
            for k, v in list(f.items()) + [("population", pop)]:
                if isinstance(v, T):
                    b = dirty(v, seeded, k in ("xall", "funall"))
                    rep.require(not b, "callback state depends on arguments and seed only", e, k, why=", ".join(b))
    for k, v in r.fields().items():
        b = dirty(v, seeded, k in ("xall", "funall"))
        rep.require(not b, "result depends on arguments and seed only", src_of(v) or (r.entry, 0, r.entry), "field " + k,
                    why=", ".join(b))


def tasks(tier):
    out = []
    for m in S.METHODS:
        base = {k: (v if "seed" in v else dict(v, seed=NONE)) for k, v in S.configs(m, tier).items()}
        for n, o in base.items():
            if o["seed"] is not NONE or n in ("default", "callback"):
                out.append(("%s/%s" % (m, n), check, (m, o, n)))
            if o["seed"] is NONE:
                o2 = dict(o, seed=C.SEED)
                out.append(("%s/%s+seed" % (m, n), check, (m, o2, n)))
        out.append(("%s/seed0" % m, check, (m, dict(seed=ZERO), "seed0")))
    return out


LEVEL = "other"
