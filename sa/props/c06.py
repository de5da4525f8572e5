"""C06 Parallel backends change speed, never results."""
from ..models import rows_of
from .c12 import compare, direct_call, observe
from .common import *

EXPLANATION = ("Every optimizer is interpreted with joblib threads, joblib processes and MPI and compared, coinductively over the "
               "loops, with its serial run with deferred updating: result fields, callback states, populations and draws must be "
               "the same values. In every parallel run the objective must be evaluated popsize times per call (ghost counter over "
               "all workers or ranks); updating='immediate' with workers must equal deferred; workers 0 and 1 must be serial; an "
               "unknown backend must raise before any evaluation when workers are requested; nothing in the result may depend on "
               "the MPI rank. Instances: observable values per method and backend.")
MINIMUM = 200
MINUS = sym("workers", (), None, num(-1), True)
BACKENDS = ("threading", "loky", "mpi")


def base(m, opts):
    return dict(opts, updating=const("deferred")) if m in S.POPULATION and m != "na" else dict(opts)


def entry(r):
    return (r.entry, 0, r.entry)


def parallel(rep, m, be, workers, opts, extra):
    serial = direct_call(rep, m, base(m, opts))
    par = direct_call(rep, m, dict(base(m, opts), backend=const(be) if be else NONE, workers=workers, **extra))
    w = entry(serial)
    if not rep.require(par.result is not None, "parallel run returns a result", w, be or "default backend"):
        return
    compare(rep, par, serial, "parallel run equals the serial deferred run", "%s, %s" % (m, be or "default backend"),
            skip=("eval ",), where=w)
    # every individual once
    f = par.fields()
    if "nit" in f:
        rep.prove(eqg(mul2(C.POP, f["nit"]), par.I.ghost("$nfev")), finals(par), "every individual is evaluated once",
                  src_of(f.get("nfev", f["nit"])) or w, be or "default backend")
    if be == "mpi":
        ranks(rep, par, be)
        ranks(rep, direct_call(rep, m, dict(base(m, opts), backend=const(be), workers=workers, seed=NONE, **extra)), be)


def ranks(rep, r, be):
    """Values of another rank arrive through a broadcast or a reduction only."""
    for k, v in r.fields().items():
        bad = [x for ts in origins(v, ("root", "allsum")).values() for x in ts
               if x.op == "sym" and str(x.args[0]) in ("mpi_rank", "mpi_size", "rng0") or x.op == "entropy"]
        rep.require(not bad, "result is the same on every rank and number of ranks", src_of(v) or entry(r), k)


def serial_workers(rep, m, n):
    a = direct_call(rep, m, dict(callback=S.cb, workers=num(n)))
    b = direct_call(rep, m, dict(callback=S.cb))
    rep.require(not [e for e in a.events if e.kind in ("pool_call", "mpi")], "workers 0 and 1 run serially", entry(a), str(n))
    compare(rep, a, b, "workers 0 and 1 run serially", "%s, workers=%d" % (m, n), where=entry(a))


def unknown(rep, m):
    r = direct_call(rep, m, dict(workers=S.WORKERS, backend=const("no such backend")))
    bad = [e for e in after_import(r) if e.kind == "eval"]
    rep.require(r.result is None and not bad, "unknown backend is refused for parallel work", bad[0] if bad else entry(r), m)


def tasks(tier):
    out = []
    for m in S.OPTIMIZERS:
        imm = dict(updating=const("immediate")) if m in S.POPULATION and m != "na" else {}
        for be in BACKENDS:
            out.append(("%s/%s" % (m, be), parallel, (m, be, S.WORKERS, dict(callback=S.cb), {})))
            if m in S.POPULATION and m != "na":
                out.append(("%s/%s/immediate" % (m, be), parallel,
                            (m, be, S.WORKERS, dict(callback=S.cb), dict(updating=const("immediate")))))
            if tier == "thorough" or be == "mpi":
                con = {"cpso": "Shrink", "pso": "Shrink", "de": "Random", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
                if con:
                    out.append(("%s/%s/%s" % (m, be, con), parallel, (m, be, S.WORKERS, dict(callback=S.cb, constraints=const(con)), {})))
                out.append(("%s/%s/history" % (m, be), parallel, (m, be, S.WORKERS, S.hist(callback=S.cb, x0=S.x0of(m)), {})))
        out.append(("%s/default-backend" % m, parallel, (m, None, S.WORKERS, dict(callback=S.cb), {})))
        out.append(("%s/all-cpus" % m, parallel, (m, "threading", MINUS, dict(callback=S.cb), imm)))
        out.append(("%s/mpi-one-worker" % m, parallel, (m, "mpi", ONE, dict(callback=S.cb), imm)))
        for n in (0, 1):
            out.append(("%s/workers-%d" % (m, n), serial_workers, (m, n)))
        out.append(("%s/unknown-backend" % m, unknown, (m,)))
    return out
