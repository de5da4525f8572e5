"""C10 Status code, success flag and message agree."""
from .common import *

EXPLANATION = ("The set of values that can reach result.status is collected through joins, loop entries, back edges and exits; "
               "it must be part of the documented table and a run must not be able to end without one. message must be the "
               "lookup of that same status value in a table equal to the documented one, success the comparison 0 <= status. "
               "Instances: the three fields in each configuration of each optimizer.")
MINIMUM = 80
TABLE = {
    -8: "TolX", -7: "TolFun", -6: "TolXUp", -5: "EqualFunValues", -4: "ConditionCov", -3: "NoEffectCoord", -2: "NoEffectAxis",
    -1: "maximum number of iterations is reached", 0: "best solution changes less than xtol",
    1: "best solution value is lower than ftol",
}


def value_leaves(t):
    """Values t can take, with the sites they come from (unbound on entry of a loop: see below)."""
    out = {}
    seen = set()
    st = [(t, None)]
    while st:
        a, s = st.pop()
        s = a.src or s
        if a.op == "undef":
            continue
        if (a, s) in seen:
            continue
        seen.add((a, s))
        if a.op == "ite":
            st.extend((x, s) for x in a.args[1:])
        elif a.op == "fin":
            st.append((a.args[1], s))
        elif a.op == "phi" and a.args[0] in IN.LOOPS and a in IN.LOOPS[a.args[0]].phis:
            st.extend((x, s) for x in IN.LOOPS[a.args[0]].phis[a])
        else:
            out.setdefault(a, s)
    return out


def lookup_of(t):
    return t.args if t.op == "lookup" else None


def check(rep, m, opts, name):
    r = start(rep, m, opts)
    f = r.fields()
    one = (r.entry, 0, r.entry)
    for k in ("status", "success", "message"):
        if not rep.require(k in f, "result carries the field", one, k):
            return
    s = f["status"]
    where = src_of(s) or one
    for v, w in value_leaves(s).items():
        if v is NONE:
            continue
        rep.require(is_num(v) and v.args[0] in TABLE, "status is a documented code", w or where, show(v, 4)[:200])
    for t in nodes(s):
        if t.op == "fin" and t.args[1] in IN.LOOPS[t.args[0]].phis and IN.LOOPS[t.args[0]].phis[t.args[1]][0].op == "undef":
            # unbound before the loop: the loop must have been entered
            L = t.args[0]
            rep.prove(leg(ONE, mk("fin", (L, iterk(L)), ())), finals(r), "a run never ends without a status", where,
                      "status is set in the first iteration")
    rep.prove(true(bnot(isnone(s))), finals(r), "a run never ends without a status", where, "result.status")
    rep.prove(eqg(f["success"], le(ZERO, s)), finals(r), "success is true exactly for non-negative codes",
              src_of(f["success"]) or where, "result.success")
    msg = f["message"]
    l = lookup_of(msg)
    w = src_of(msg) or where
    if not rep.require(l is not None, "message is looked up by the status", w, show(msg, 3)[:300]):
        return
    rep.prove(eqg(l[0], s), finals(r), "message is looked up by the status", w, "result.message")
    tab = {}
    for k, v in l[1]:
        tab[int(k.args[0]) if is_num(k) else k] = v.args[-1] if isinstance(v, T) else v
    for k, v in TABLE.items():
        rep.require(tab.get(k) == v, "message is the documented one", w, "code %d" % k, why="table says %r" % (tab.get(k),))


def tasks(tier):
    return each(S.OPTIMIZERS, tier, check)
