"""C12 Every method is reachable by name and means the same either way."""
import ast
import re

from .. import bisim
from .common import *

EXPLANATION = ("Sibling comparison: the public dispatcher is interpreted with method=name and an options dictionary and the method "
               "itself with the same arguments; every field of the result, every evaluated point, drawn number and callback "
               "argument must be the same value (loops compared coinductively by partition refinement). The same comparison "
               "relates an omitted option with its documented default (parsed from the docstring), and PSO with CPSO without "
               "competition. For every documented option a value dependence from the option to the run must exist, and the "
               "documented values of the mode options must give different runs.")
MINIMUM = 150

GENERIC = ("fun", "bounds", "x0", "args", "callback")


def published():
    """Names documented by the dispatchers."""
    return {"optimize": S.OPTIMIZERS, "sample": S.SAMPLERS}


def call_by_name(rep, kind, m, opts, method=True):
    """stochopy.<kind>.<minimize|sample>(method=m, options={...})"""
    from ..framework import ROOT as root

    I, direct = C.setup(root, m)
    entry = "stochopy.%s.%s" % (kind, "minimize" if kind == "optimize" else "sample")
    f = C.resolve(I, entry)
    if not isinstance(f, IN.Fn):
        raise Unsupported("%s is not a function" % entry)
    names, dflt = C.params_of(direct)
    kw = OrderedDict()
    for n in names:
        if n in opts:
            v = opts[n]
            if v is OMIT:
                continue
            kw[n] = v(I) if callable(v) else v
        else:
            kw[n] = C.default_value(I, m, n, dflt.get(n))
    top = OrderedDict((k, kw.pop(k)) for k in GENERIC if k in kw)
    if method:
        top["method"] = const(m)
    d = I.alloc(IN.Obj("dct", tuple(kw.items()), None), origin="param:options")
    top["options"] = d if kw else NONE
    if opts.get("_pre"):
        I.st.pc = I.st.pc + tuple(opts["_pre"])
    I.frames.append(C.top_frame(I))
    r = C.Run(I, entry, dict(opts))
    r.params = top
    I.entry_state = I.st.copy()
    res = I.call(f, [], top)
    r.result = res if I.st.alive else None
    note(rep, r)
    return r


OMIT = object()


def direct_call(rep, m, opts):
    from ..framework import ROOT as root

    I, f = C.setup(root, m)
    names, dflt = C.params_of(f)
    kw = OrderedDict()
    for n in names:
        if n in opts:
            v = opts[n]
            if v is OMIT:
                continue
            kw[n] = v(I) if callable(v) else v
        else:
            kw[n] = C.default_value(I, m, n, dflt.get(n))
    if opts.get("_pre"):
        I.st.pc = I.st.pc + tuple(opts["_pre"])
    I.frames.append(C.top_frame(I))
    r = C.Run(I, C.entry_name(m), dict(opts))
    r.params = kw
    r.fn = f
    I.entry_state = I.st.copy()
    res = I.call(f, [], kw)
    r.result = res if I.st.alive else None
    note(rep, r)
    return r


def observe(r):
    """What a caller can observe of a run: label -> term, and the places."""
    out = OrderedDict()
    if r.result is not None:
        for k, v in r.fields().items():
            out["result." + k] = (v, src_of(v))
    n = {}
    for e in after_import(r):
        if e.kind in ("eval", "grad", "callback", "draw"):
            n[e.kind] = n.get(e.kind, 0) + 1
            p = "%s %d" % (e.kind, n[e.kind])
            if e.kind in ("eval", "grad"):
                out[p + " point"] = (e.x, e.src)
                for i, x in enumerate(e.extras):
                    if isinstance(x, T):
                        out[p + " extra %d" % i] = (x, e.src)
            elif e.kind == "draw":
                out[p] = (e.term, e.src)
            else:
                pop, f = state_of(e)
                if isinstance(pop, T):
                    out[p + " population"] = (pop, e.src)
                for k, v in f.items():
                    if isinstance(v, T):
                        out["%s.%s" % (p, k)] = (v, e.src)
    return out


def compare(rep, r1, r2, rule, what, skip=(), where=None):
    """Obligations: the observable values agree."""
    a, b = observe(r1), observe(r2)
    if (r1.result is None) != (r2.result is None):
        rep.fail(rule, where, "%s: only one of the two returns a result" % what)
        return False
    drop = lambda k: any(s in k for s in skip)
    ks = [k for k in a if not drop(k)]
    miss = [k for k in set(a) ^ set(b) if not drop(k)]
    for k in miss:
        rep.fail(rule, (a.get(k) or b.get(k))[1], "%s: %s occurs in only one of the two runs" % (what, k))
    ks = [k for k in ks if k in b]
    res = bisim.same([(a[k][0], b[k][0]) for k in ks])
    good = not miss
    for k, s in zip(ks, res):
        rep.require(s, rule, a[k][1] or where, "%s: %s" % (what, k),
                    why="%s in one run, %s in the other" % (show(a[k][0], 4)[:250], show(b[k][0], 4)[:250]))
        good = good and s
    return good


def differ(rep, r1, r2, rule, what, where):
    a, b = observe(r1), observe(r2)
    if set(a) != set(b):
        rep.ok(rule, where, what)
        return
    ks = list(a)
    res = bisim.same([(a[k][0], b[k][0]) for k in ks])
    rep.require(not all(res), rule, where, what, why="both values give the same run")


# ---------------------------------------------------------------- by name
def byname(rep, kind, m, opts):
    r2 = direct_call(rep, m, opts)
    r1 = call_by_name(rep, kind, m, opts)
    compare(rep, r1, r2, "call by name equals direct call", m, where=(r1.entry, 0, r1.entry))


def byname_default(rep, kind, m):
    """options=None"""
    from ..framework import ROOT as root

    I, direct = C.setup(root, m)
    names, dflt = C.params_of(direct)
    omit = {n: OMIT for n in names if n not in GENERIC}
    r1 = call_by_name(rep, kind, m, omit)
    r2 = direct_call(rep, m, omit)
    compare(rep, r1, r2, "call by name equals direct call", m + " without options", where=(r1.entry, 0, r1.entry))


def default_method(rep, kind, m):
    r1 = call_by_name(rep, kind, m, {}, method=False)
    r2 = call_by_name(rep, kind, m, {})
    compare(rep, r1, r2, "documented default method", kind, where=(r1.entry, 0, r1.entry))


def unknown(rep, kind):
    """A name that is not published is refused."""
    from ..framework import ROOT as root

    I = C.interp(root)
    entry = "stochopy.%s.%s" % (kind, "minimize" if kind == "optimize" else "sample")
    f = C.resolve(I, entry)
    I.frames.append(C.top_frame(I))
    r = C.Run(I, entry, {})
    try:
        I.call(f, [], OrderedDict(fun=C.ufn("fun"), bounds=C.box(I), method=const("no such method")))
    except Unsupported as e:
        raise
    note(rep, r)
    evs = [e for e in after_import(r) if e.kind == "eval"]
    rep.require(not I.st.alive and not evs, "unknown method is refused", (f.module.file, f.node.lineno, f.name), kind)


# ---------------------------------------------------------------- documentation
def docs(fn):
    """Parameter descriptions of a docstring: name -> (type, default text or None, body)."""
    d = ast.get_docstring(fn.node) or ""
    m = re.search(r"Parameters\n-+\n(.*?)\n\n?(Returns|Note|References)\n-+", d, re.S)
    out = OrderedDict()
    if not m:
        return out
    cur = None
    for l in m.group(1).split("\n"):
        h = re.match(r"^(\w+)\s*:\s*(.*)$", l)
        if h and not l.startswith(" "):
            cur = h.group(1)
            dm = re.search(r"default (.*)$", h.group(2))
            out[cur] = [h.group(2), dm.group(1).strip() if dm else None, ""]
        elif cur:
            out[cur][2] += l + "\n"
    return out


def doc_value(text):
    try:
        v = ast.literal_eval(text)
    except Exception:
        return None
    if isinstance(v, tuple):
        return IN.Tup([num(x) for x in v])
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float)):
        from fractions import Fraction

        return num(Fraction(str(v)))
    return const(v)


def defaults(rep, m):
    """Omitted options equal their documented defaults."""
    from ..framework import ROOT as root

    I, f = C.setup(root, m)
    d = docs(f)
    names, dflt = C.params_of(f)
    where = (f.module.file, f.node.lineno, f.name)
    for n in d:
        rep.require(n in names, "documented parameter exists", where, "%s of %s" % (n, m))
    for n in ("maxiter", "popsize"):
        if n in d:
            v = doc_value(d[n][1])
            rep.require(dflt.get(n) is v, "omitted option equals its documented default", where, "%s of %s" % (n, m),
                        why="signature %s, documentation %s" % (dflt.get(n), d[n][1]))
    opts1 = {n: OMIT for n in names if n not in ("fun", "bounds", "maxiter", "popsize")}
    r1 = direct_call(rep, m, opts1)
    opts2 = dict(opts1)
    for n in d:
        if n in ("fun", "bounds", "maxiter", "popsize") or d[n][1] is None:
            continue
        v = doc_value(d[n][1])
        if v is None:
            raise Unsupported("documented default %r of %s" % (d[n][1], n))
        if n in names:
            opts2[n] = v
    r2 = direct_call(rep, m, opts2)
    compare(rep, r1, r2, "omitted option equals its documented default", m, where=where)
    # with workers requested, the documented default back-end
    if "backend" in names and "backend" in d:
        o = {k: v for k, v in opts1.items() if k not in ("workers", "backend")}
        o["workers"] = S.WORKERS
        r1 = direct_call(rep, m, dict(o, backend=OMIT))
        r2 = direct_call(rep, m, dict(o, backend=doc_value(d["backend"][1])))
        compare(rep, r1, r2, "omitted option equals its documented default", m + " backend", where=where)
        p1 = [e.meta for e in r1.events if e.kind == "pool_call"]
        p2 = [e.meta for e in r2.events if e.kind == "pool_call"]
        rep.require(repr(p1) == repr(p2), "omitted option equals its documented default", where, m + " worker pool",
                    why="%s and %s" % (p1, p2))


def no_competition(rep, u, cons, x0):
    o = dict(updating=const(u), constraints=const(cons) if cons else NONE, callback=S.cb)
    if x0:
        o["x0"] = S.x0pop
    r1 = direct_call(rep, "pso", o)
    r2 = direct_call(rep, "cpso", dict(o, competitivity=NONE))
    compare(rep, r1, r2, "PSO is CPSO without competition", "%s, constraints %s" % (u, cons), where=(r1.entry, 0, r1.entry))


# ---------------------------------------------------------------- effect of options
CHOICES = {
    "updating": ["immediate", "deferred"],
    "strategy": ["rand1bin", "rand2bin", "best1bin", "best2bin"],
}
CONS = {"cpso": "Shrink", "pso": "Shrink", "de": "Random", "cmaes": "Penalize", "vdcma": "Penalize", "mcmc": "Reject", "hmc": "Reject"}


def sym_names(terms):
    out = set()
    seen = set()
    for t in terms:
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        for op, l in origins(t).items():
            for a in l:
                if a.op in ("sym",):
                    out.add(a.args[0])
                if a.op == "seeded":
                    out.update(x.args[0] for x in nodes(a) if x.op == "sym")
        for n in nodes(t):
            for s in n.shape or ():
                if isinstance(s, T):
                    out.update(x.args[0] for x in nodes(s) if x.op == "sym")
    return out


def effects(rep, m):
    from ..framework import ROOT as root

    I, f = C.setup(root, m)
    d = docs(f)
    where = (f.module.file, f.node.lineno, f.name)
    names, dflt = C.params_of(f)
    base = dict(callback=S.cb)
    if m not in S.SAMPLERS:
        base.update(return_all=TRUE, verbosity=S.VPOS, _pre=[lt(ZERO, S.VPOS)])
    r = direct_call(rep, m, dict(base, x0=S.x0of(m)))
    r0 = direct_call(rep, m, base)
    r3 = direct_call(rep, m, dict(base, constraints=const(CONS[m]))) if m in CONS else r
    seen = set()
    for x in (r, r0, r3):
        seen |= sym_names(t for t, s in observe(x).values())
        for e in x.events:
            seen |= sym_names(c for c in e.pc)
    for n in d:
        if n in ("fun", "callback", "workers", "backend", "jac", "constraints", "return_all") or n in CHOICES:
            continue
        rep.require(n in seen, "documented option has an effect on the run", where, "%s of %s" % (n, m),
                    why="no value, evaluated point or condition depends on it")
    rule = "documented values of an option differ"
    for n, vals in CHOICES.items():
        if n not in d:
            continue
        runs = [(v, direct_call(rep, m, dict({n: const(v)}, callback=S.cb))) for v in vals]
        for i in range(len(runs)):
            rep.require(runs[i][1].result is not None, "documented value is accepted", where, "%s=%s" % (n, runs[i][0]))
            for j in range(i):
                differ(rep, runs[i][1], runs[j][1], rule, "%s: %s, %s" % (n, runs[i][0], runs[j][0]), where)
    plain = direct_call(rep, m, dict(callback=S.cb))
    if "constraints" in d:
        con = direct_call(rep, m, dict(callback=S.cb, constraints=const(CONS[m])))
        rep.require(con.result is not None, "documented value is accepted", where, "constraints=" + CONS[m])
        differ(rep, plain, con, rule, "constraints: None, " + CONS[m], where)
    if "jac" in d:
        differ(rep, plain, direct_call(rep, m, dict(callback=S.cb, jac=S.jac)), rule, "jac: None, callable", where)
    if "return_all" in d:
        on = direct_call(rep, m, dict(callback=S.cb, return_all=TRUE))
        off = direct_call(rep, m, dict(callback=S.cb, return_all=FALSE))
        differ(rep, on, off, rule, "return_all: True, False", where)
        rep.require("xall" in on.fields() and "funall" in on.fields() and "xall" not in off.fields(),
                    "history is returned exactly on request", where, m)
    rep.require(any(e.kind == "callback" for e in plain.events), "documented option has an effect on the run", where,
                "callback of " + m)
    if "backend" in d:
        for be in ("loky", "threading", "mpi"):
            x = direct_call(rep, m, dict(workers=S.WORKERS, backend=const(be)))
            rep.require(x.result is not None, "documented value is accepted", where, "backend=" + be)
            par = [e for e in x.events if e.kind == ("mpi" if be == "mpi" else "pool_call")]
            rep.require(par, "documented option has an effect on the run", where, "workers, backend=%s of %s" % (be, m))
            if be != "mpi":
                for e in par:
                    j = dict(e.meta).get("n_jobs")
                    rep.require(j is S.WORKERS, "documented option has an effect on the run", e, "number of workers",
                                why="pool uses %s" % (show(j, 3) if isinstance(j, T) else j))


def tasks(tier):
    out = []
    for kind, ms in published().items():
        for m in ms:
            cf = S.configs(m, tier)
            for n in (["callback", "x0", "seed", "history"] if tier == "quick" else list(cf)):
                if n in cf:
                    out.append(("by-name/%s/%s" % (m, n), byname, (kind, m, cf[n])))
            if tier == "thorough" or m in ("cmaes", "mcmc", "hmc", "na", "vdcma"):
                out.append(("by-name/%s/no-options" % m, byname_default, (kind, m)))
            out.append(("defaults/" + m, defaults, (m,)))
            out.append(("effects/" + m, effects, (m,)))
        out.append(("default-method/" + kind, default_method, (kind, "de" if kind == "optimize" else "mcmc")))
        out.append(("unknown-method/" + kind, unknown, (kind,)))
    for u in ("immediate", "deferred"):
        for c in (None, "Shrink"):
            for x in (False, True):
                out.append(("pso-cpso/%s/%s/%s" % (u, c, x), no_competition, (u, c, x)))
    return out
