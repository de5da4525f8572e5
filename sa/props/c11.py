"""C11 Runs stop exactly when the documented criteria say so."""
from .. import terms
from ..order import decide, facts, propagated, refuted
from .extract import *

EXPLANATION = ("Conditional statements over the values at the return are established through joins and by induction over the loops: a "
               "status of 1 or 0 comes with a reported value at or below ftol, a status of -1 with maxiter iterations, and no state "
               "or result counts more than maxiter. On every pass of a loop that ends with status 0 the distance between the point "
               "carried into the pass and the one carried out of it must be shown to be at most xtol. On the back edge of the "
               "iteration loop the value reported is above ftol or no better than that of the iteration before. Instances: returns, "
               "callbacks, loop passes per configuration.")
MINIMUM = 150


def check(rep, m, opts, name):
    if m in S.EVOLUTION:
        terms.EXPAND_LIMIT = terms.POWER_LIMIT = 400
    r = start(rep, m, dict(opts, callback=S.cb, _track=["fun"]))
    one = (r.entry, 0, r.entry)
    f = r.fields()
    if not rep.require(all(k in f for k in ("x", "fun", "status", "nit")), "the result tells why the run ended", one):
        return
    xtol, ftol, n = r.params.get("xtol"), r.params.get("ftol"), r.params["maxiter"]
    s, pc, w = f["status"], finals(r), src_of(f["status"]) or one
    rep.prove(true(bor(bnot(eq(s, ONE)), le(f["fun"], ftol))), pc, "status 1 means a value at or below ftol", w)
    rep.prove(true(bor(bnot(eq(s, ZERO)), le(f["fun"], ftol))), pc, "status 0 means a value at or below ftol", w)
    rep.prove(true(bor(bnot(eq(s, num(-1))), le(n, f["nit"]))), pc, "status -1 means maxiter iterations", w)
    rep.prove(leg(f["nit"], n), pc, "no more than maxiter iterations", src_of(f["nit"]) or one)
    for e in [e for e in after_import(r) if e.kind == "callback"]:
        pop, d = state_of(e)
        if "nit" in d:
            rep.prove(leg(d["nit"], n), e.pc, "no more than maxiter iterations", e)
    if not any(k in name for k in ("shrink", "random", "2bin")):
        # (the points of these are too large to expand their distances; the selection is the same)
        moves(rep, r, f, xtol, ftol, w)
    goes_on(rep, r, f, ftol, w)


def passes(L):
    """Values on the back edge and the facts of a pass that is followed by another."""
    info = IN.LOOPS[L]
    mn = {p: b for p, (a, b) in info.phis.items()}
    mn[iterk(L)] = add(iterk(L), ONE)
    F = list(info.body_pc) + list(info.end_pc) + [info.back]
    return info, mn, F


def points(f, r):
    """Loop variables that the reported point, or the points evaluated, are computed from."""
    out, seen = {}, set()
    todo = [f["x"]] + [e.x for e in after_import(r) if e.kind == "eval"]
    while todo:
        for n in nodes(todo.pop()):
            p = n.args[1] if n.op == "fin" else n
            if p in seen or p.op != "phi" or p.args[0] not in IN.LOOPS or p not in IN.LOOPS[p.args[0]].phis:
                continue
            seen.add(p)
            if p.shape is not None and len(p.shape) == 1 and p.shape[0] is C.NDIM:
                out[p] = 1
                todo.append(IN.LOOPS[p.args[0]].phis[p][1])
    return list(out)


def moves(rep, r, f, xtol, ftol, w):
    """Status 0: the distance moved in the pass that sets it."""
    s = f["status"]
    carriers = {}
    st = [s]
    seen = set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        for x in leaves_(t):
            p = x.args[1] if x.op == "fin" else x
            if p.op == "phi" and p.args[0] in IN.LOOPS and p in IN.LOOPS[p.args[0]].phis and p not in carriers:
                carriers[p] = IN.LOOPS[p.args[0]].phis[p]
                st.extend(carriers[p])
    P = points(f, r)
    done = False
    for p, (a, b) in carriers.items():
        L = p.args[0]
        if not any(is_num(x) and x is ZERO for x in leaves_(b)):
            continue
        done = True
        info, mn, F = passes(L)
        F = F[:-1]
        src = tuple(info.src) if info.src else w
        G = below_ftol(rep, r, L, p, ftol, F)
        why = []
        for q in [q for q in P if q.args[0] == L]:
            x = moved(rep, r, p, q, mn, F, G, xtol)
            if x is None:
                why = None
                break
            why.append("%s: %s" % (info.names.get(q, show(q)), x))
        rep.require(why is None, "status 0 means a last move of at most xtol", src,
                    why="; ".join(why or ())[:1500] or "no point is carried along")
    rep.require(done, "status 0 can be reached", w)


def leaves_(t):
    st, seen = [t], set()
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        if a.op == "ite":
            st.extend(a.args[1:])
        else:
            yield a


def below_ftol(rep, r, L, p, ftol, F):
    """Values that are at or below ftol whenever the status carried is 0."""
    out = []
    for g in IN.LOOPS[L].phis:
        if g.shape == () and is_numeric(g) and not is_int(g):
            h = bor(bnot(eq(p, ZERO)), le(g, ftol))
            if PR.Prover(budget=1500).prove(true(h), list(IN.LOOPS[L].body_pc)):
                out.append(h)
    return out


def moved(rep, r, p, q, mn, F, G, xtol):
    """None if every way to leave the pass with status 0 has moved q by at most xtol (or not at all, with the
    status carried into the pass)."""
    for path, v in leaves(mn[p]):
        path = list(path)
        f = facts(F + path)
        if FALSE in f.lits or f.contradictory or v is NONE or is_num(v) and v is not ZERO:
            continue
        for path2, y in rows(given(mn[q], path), tuple(path)):
            lits = list(path2)
            f = propagated(F + lits)
            if f is None or y is q and v is p:
                continue
            if v is p and refuted(F + lits + [eq(p, ZERO)] + [x for h in G for x in conclusions(h, p)]):
                continue
            if any(same_length(N, q, y, list(f.lits)) for N in bounded(f, xtol)):
                continue
            return "moved to %s when %s" % (show(y, 3)[:200], "; ".join(show(x, 4)[:120] for x in lits)[:600])
    return None


def rows(t, path):
    """The points t can be, whole points at a time."""
    if t.op == "ite" and t.args[0].shape == ():
        d = known(t.args[0], path)
        if d is not None:
            return rows(t.args[1] if d else t.args[2], path)
        return rows(t.args[1], path + tuple(conj(t.args[0]))) + rows(t.args[2], path + tuple(conj(bnot(t.args[0]))))
    return [(path, t)]


def bounded(f, xtol):
    """Square roots known to be at most xtol."""
    out = []
    for c in f.lits:
        if c.op in ("le", "lt") and c.args[0].op == "poly":
            N = PR.open_boxes(add(c.args[0], xtol))
            if N.op == "fn" and N.args[0] == "sqrt":
                out.append(N.args[1])
    return out


def summand(P, j):
    """Entry j of the array whose sum over the coordinates P is."""
    P = PR.open_boxes(P)
    out = ZERO
    for c, m in P.args if P.op == "poly" else ((1, ((P, 1),)),):
        x = num(c)
        sums = 0
        for a, e in m:
            if a.op == "sum" and e == 1 and not sums and a.args[0] is C.NDIM:
                x = mul2(x, subst(a.args[2], {a.args[1]: j}))
                sums += 1
            else:
                x = mul2(x, power(a, num(e)) if e != 1 else a)
        if not sums:
            x = div(x, C.NDIM)
        out = add(out, x)
    return out


def same_length(N, q, y, F):
    """N is the squared distance of the points q and y."""
    j = fresh("j")
    d = sub(at(q, 0, j), at(y, 0, j))
    s, F = summand(N, j), list(F) + [le(ZERO, j), lt(j, C.NDIM)]
    return any(s is mul2(x, x) for x in (d, neg(d))) or PR.Prover(budget=3000).prove(eqg(s, mul2(d, d)), F)


def conclusions(h, p):
    return [x for x in h.args if x is not bnot(eq(p, ZERO))] if h.op == "or" else []


def goes_on(rep, r, f, ftol, w):
    g = "$cb.fun"
    for L, info in IN.LOOPS.items():
        ps = [p for p, nm in info.names.items() if nm == g and p in info.phis]
        if info.parent is not None or not ps:
            continue
        p = ps[0]
        i, mn, F = passes(L)
        if isinstance(info.cond, T):
            F = F + [subst(info.cond, mn)]
        on = [c for x in F[len(info.body_pc):] for c in conj(x) if any(n.op == "isnone" for n in nodes(c))]
        rep.prove(true(bor(lt(ftol, mn[p]), le(p, mn[p]), *[bnot(c) for c in on])), F, "no further iteration after a value at or below ftol", tuple(info.src) if info.src else w)


def tasks(tier):
    return each(S.OPTIMIZERS, tier, check)
