"""Shared by the property modules."""
from collections import OrderedDict

from .. import configs as C
from .. import interp as IN
from .. import suite as S
from .. import prove as PR
from ..interp import Unsupported
from ..prove import pt, eqg, leg, true, Hyp
from ..terms import *

ROOT = "/repo"
LEVEL = "other"


def start(rep, m, opts, need=True):
    """Interpret an entry point; fills the coverage information of the report."""
    from ..framework import ROOT as root

    r = C.run(root, m, **opts)
    note(rep, r)
    if need and r.result is None:
        raise Unsupported("no path of %s returns a result" % r.entry)
    return r


def note(rep, r):
    I = r.I
    inf = rep.info
    inf["files"] = sorted(set(inf.get("files", ())) | set(I.files))
    inf["funcs"] = sorted(set(inf.get("funcs", ())) | {"%s:%s" % (f, n) for f, l, n in I.funcs_seen})
    inf["stmts"] = inf.get("stmts", 0) + I.stmts_seen
    inf["events"] = inf.get("events", 0) + len(I.events)


def each(methods, tier, fn, only=None, prefix=None):
    """Tasks fn(rep, method, options, name) for the configurations of the methods."""
    out = []
    for m in methods:
        for n, o in S.configs(m, tier).items():
            if only is None or only(m, n, o):
                out.append(("%s/%s" % (m, n), fn, (m, o, n)))
    return out


def after_import(r):
    """Events of the call itself."""
    return [e for e in r.events if e.stack and e.stack[0] == "<caller>"]


def finals(r):
    return r.I.st.pc


def src_of(t, r=None):
    for n in nodes(t):
        if n.src:
            return n.src
    return None


_origin_cache = {}


def filled(t, d=8):
    """An array that is assigned piece by piece (not replaced as a whole)."""
    if d <= 0:
        return False
    if t.op in ("sto", "stos", "scat"):
        return True
    if t.op == "ite":
        return any(filled(x, d - 1) for x in t.args[1:])
    if t.op == "fin":
        p = t.args[1]
        if p.op == "phi" and p.args[0] in IN.LOOPS and p in IN.LOOPS[p.args[0]].phis:
            return filled(IN.LOOPS[p.args[0]].phis[p][1], d - 1)
        return filled(p, d - 1)
    return False


def origins(t, stop=()):
    """Leaves of the value dependence of t, through joins, loop entries and back edges."""
    out = {}
    seen = set()
    st = [t]
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.op in stop:
            continue
        if a.op == "phi":
            L = IN.LOOPS.get(a.args[0])
            if L is not None and a in L.phis:
                i, n = L.phis[a]
                if i.op == "uninit" and filled(n):
                    st.append(n)
                else:
                    st.extend((i, n))
                st.extend(x for x in (L.cond, L.count) if isinstance(x, T))
            else:
                out.setdefault(a.op, []).append(a)
            continue
        if a.op == "iter":
            continue
        if a.op == "fin":
            L = IN.LOOPS.get(a.args[0])
            if L is not None:
                st.extend(x for x in (L.cond, L.count) if isinstance(x, T))
                for e in L.exits:
                    st.extend(x for x in e[1:] if isinstance(x, T))
        cs = list(children(a))
        if a.op in ("sto", "stos", "scat") and isinstance(a.args[0], T) and a.args[0].op == "uninit":
            # storage that is being filled
            cs = [c for c in cs if c is not a.args[0]]
            if not cs:
                continue
        if not cs or a.op == "sym":
            out.setdefault(a.op, []).append(a)
        st.extend(cs)
        if a.op in ("uninit", "world", "entropy", "seeded", "undef"):
            out.setdefault(a.op, []).append(a)
    return out


def state_of(e):
    """(points, fields) handed to a callback."""
    a = e.args
    f = a[1] if len(a) > 1 else OrderedDict()
    return a[0], (f if isinstance(f, dict) else OrderedDict())


def unwrap_obj(o, X):
    """The objective value term of event o at another point."""
    return mk(o.op, (o.args[0], X) + o.args[2:], ())


def objective(r):
    for e in r.events:
        if e.kind == "eval" and e.name == "fun":
            return e.value
    raise Unsupported("the objective is never called")


def obj_at(r, X):
    return unwrap_obj(objective(r), X)
