"""C18 Samplers accept proposals by the Metropolis rule."""
from .. import terms
from .extract import *
from ..prove import open_boxes
from .leapfrog import Scheme, square

EXPLANATION = ("The state equations of the sampling loop are read: the entry written to the history must be the proposal under one "
               "condition and the previous entry otherwise, with the objective values following the same condition. Of that "
               "condition the part that mentions a uniform random number must be the Metropolis test in normal form, "
               "log u < (current value - proposed value [+ current kinetic - proposed kinetic energy]), for a scalar uniform draw "
               "of the current iteration that nothing else uses; the rest may only restrict the proposal. The acceptance ratio "
               "times nit must be a counter incremented exactly under the same condition. Instances: loops per configuration, "
               "and the ratio of every state and result.")
MINIMUM = 20


def draws(t, kind=None):
    return [n for n in nodes(t) if n.op == "rnd" and (kind is None or n.args[0] == kind)]


def strip_min(t):
    """Argument of min(0, .)"""
    if t.op == "poly" and len(t.args) == 1 and t.args[0][0] == 1 and len(t.args[0][1]) == 1 and t.args[0][1][0][1] == 1:
        t = t.args[0][1][0][0]
    if t.op == "min" and ZERO in t.args and len(t.args) == 2:
        return [x for x in t.args if x is not ZERO][0]
    return None


def difference(l, u):
    """d of a literal equivalent to u < exp(d), with u uniform on [0, 1)."""
    if l.op not in ("lt", "le"):
        return None
    P = l.args[0]
    for form in (fn("log", u), u):
        c = [k for k, mono in P.args if len(mono) == 1 and mono[0] == (form, 1)] if P.op == "poly" else []
        if len(c) == 1 and is_num(c[0] if isinstance(c[0], T) else num(c[0])) and c[0] > 0:
            P = mul(P, div(ONE, num(c[0])))
        R = sub(P, form)
        if depends(R, u):
            continue
        E = neg(R)
        if form is u:
            d = unexp(E)
        else:
            d = strip_min(E) or E
        return d
    return None


def unexp(E):
    if E.op == "min" and len(E.args) == 2 and ONE in E.args:
        E = [x for x in E.args if x is not ONE][0]
    if E.op == "fn" and E.args[0] == "exp":
        return strip_min(E.args[1]) or E.args[1]
    if E.op == "poly" and len(E.args) == 1 and E.args[0][0] == 1:
        out = ZERO
        for a, e in E.args[0][1]:
            if a.op == "fn" and a.args[0] == "exp" and e == 1:
                out = add(out, a.args[1])
            elif a.op == "fn" and a.args[0] == "exp" and e == -1:
                out = sub(out, a.args[1])
            else:
                return None
        return strip_min(out) or out
    return None


def check(rep, m, opts, name):
    terms.BOX_LIMIT = 10 ** 6
    terms.EXPAND_LIMIT = terms.POWER_LIMIT = 400
    r = start(rep, m, dict(opts, return_all=TRUE))
    f = r.fields()
    one = (r.entry, 0, r.entry)
    X, F = f.get("xall"), f.get("funall")
    if X is None or F is None:
        rep.undecided("history", one)
        return
    xs, fs = steps(r, X), steps(r, F)
    if not xs or not fs:
        rep.undecided("the sampling loop writes one entry per iteration", one, "no loop of that form reaches the history")
        return
    conds = {}
    for sx in xs:
        w = tuple(sx.L.src) if sx.L.src else one
        sf = [s for s in fs if s.L is sx.L and s.idx is sx.idx]
        if not sf:
            rep.undecided("samples and values are written together", w)
            continue
        rep.ok("samples and values are written together", w)
        conds[sx.L] = metropolis(rep, r, m, sx, sf[0], w)
    if any(c is None for c in conds.values()) or not conds:
        return
    for s in xs + fs:
        interrupted(rep, r, s, [X, F], tuple(s.L.src) if s.L.src else one)
    # acceptance ratio
    nit = f["nit"]
    count(rep, "accept_ratio of the result", f.get("accept_ratio"), nit, conds, src_of(f["accept_ratio"]) or one, True)
    for e in after_import(r):
        if e.kind == "callback":
            pop, d = state_of(e)
            if "accept_ratio" in d and "nit" in d:
                count(rep, "accept_ratio of the state", d["accept_ratio"], d["nit"], conds, e, False)


def metropolis(rep, r, m, sx, sf, w):
    """Checks the two steps; returns the acceptance condition."""
    al = aliases(sx.L, [sx, sf])
    val = lambda t: subst(t, al) if al else t
    xprev, fprev = sx.before, sf.before
    xv, fv = val(sx.value), val(sf.value)
    keep = lambda v: v is xprev
    ls = leaves(xv)
    props = []
    for c, v in ls:
        if not keep(v) and v not in props:
            props.append(v)
    rule = "rejected proposals repeat the current sample"
    if len(props) != 1 or not any(keep(v) for c, v in ls):
        rep.fail(rule, w, "new sample is one of %s" % "; ".join(show(v, 4)[:200] for c, v in ls))
        return None
    prop = props[0]
    if draws(prop) or prop.op == "fin" or any(n.op == "fin" for n in nodes(prop)):
        rep.ok(rule, w, "step %s" % show(sx.idx))
    else:
        rep.fail(rule, w, "the proposal is %s" % show(prop, 5))
        return None
    acc = cond_of(ls, lambda v: v is prop)
    # objective values
    o = lambda x: obj_at(r, x)
    cur = {o(xprev): fprev}
    same = lambda t: subst(open_boxes(subst(t, cur)), cur)
    raw = leaves(sx.value)
    racc = bor(*[band(*c) if c else TRUE for c, v in raw if val(v) is prop] or [FALSE])
    acc2 = same(val(acc))
    lits = conj(acc2)
    fvn = same(fv)
    fa = given(fvn, lits)
    fr = given(fvn, (bnot(acc2),))
    ok = rep.require(fa is o(prop), "an accepted proposal brings its own value", w, why="value written on acceptance: %s" % show(fa, 5)[:300])
    ok &= rep.require(fr is fprev, "a rejected proposal repeats the current value", w, why="value written on rejection: %s" % show(fr, 5)[:300])
    # the test
    us = {u for l in lits for u in draws(l, "u01") if not draws_inside(u, prop)}
    rule = "Metropolis test against the current state"
    tests = []
    for l in lits:
        mine = [u for u in us if u in nodes(l)]
        if mine:
            tests.append((l, mine))
    if len(tests) != 1 or len(tests[0][1]) != 1:
        rep.fail(rule, w, "a proposal is accepted when %s" % show(acc, 6)[:500])
        return None
    l, (u,) = tests[0]
    ok &= rep.require(u.args[2] == () and u.shape == (), "one uniform number per proposal", w, why=show(u))
    st = u.args[3]
    k = [n for n in nodes(st) if n.op in ("phi", "iter") and n.args[0] == sx.L.id]
    ok &= rep.require(bool(k), "the uniform number is drawn in the iteration", w, why=show(u, 4))
    ok &= rep.require(not depends(prop, u) and not any(d.args[3] is st for d in draws(prop)), "the uniform number is used for nothing else", w)
    others = [x for x in lits if x is not l]
    for x in others:
        ok &= rep.require(not [d for d in draws(x) if not depends(prop, d)] and not [n for n in nodes(x) if n.op == "phi" and not depends(prop, n) and
                          n.shape == () and n.args[3] == "bool"],
                          "other conditions restrict the proposal", w, why=show(x, 5)[:300])
    d = difference(l, u)
    if d is None:
        rep.undecided(rule, w, "accepted when %s" % show(l, 6)[:400])
        return None if not ok else racc
    # within the feasible case
    d = given(same(d), others)
    want = sub(fprev, o(prop))
    if m == "hmc":
        try:
            sch = Scheme(r, sx, prop, al)
        except LookupError as e:
            rep.undecided(rule, w, "leapfrog not recognised: %s" % e)
            return racc
        want = add(want, mul(div(ONE, TWO), sub(square(sch.p0), square(sch.pend))))
    d, want = open_boxes(d), open_boxes(want)
    ok &= rep.require(d is want, rule, w, why="log u is compared with %s, expected %s" % (show(d, 6)[:600], show(want, 6)[:600]))
    return racc if ok else None


def draws_inside(u, prop):
    return depends(prop, u)


def interrupted(rep, r, s, results, w):
    """A pass that ends the loop by a break follows the same step."""
    if not any(e[0] == "break" for e in s.L.exits):
        return
    want = left(s.L, s.p, s.next)
    after = [t for t in results if t.shape == s.p.shape]
    for lid, L in loops_reached(results).items():
        after += [n for p, (i, n) in L.phis.items() if p.shape == s.p.shape]
    for t in after:
        if has_fin(t, s.L.id) and any(n.op == "fin" and n.args == (s.L.id, s.p) for n in nodes(t)):
            bad = [v for c, v in leaves(t) if given(want, c) is not v]
            rep.require(not bad, "an interrupted sweep follows the same step", w, why="; ".join(show(v, 5)[:200] for v in bad))


def has_fin(t, l):
    return any(n.op == "fin" and n.args[0] == l for n in nodes(t))


def count(rep, what, ratio, nit, conds, w, final):
    rule = "the acceptance ratio counts the accepted proposals"
    if ratio is None:
        rep.fail(rule, w, what)
        return
    n = mul(ratio, nit)
    if is_num(n):
        rep.require(n is ZERO, rule, w, what + " (initial sample)", why=show(n))
        return
    seen = set()
    todo = [n]
    stepped = 0
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "fin":
            todo.append(t.args[1])
            continue
        if t is ZERO:
            continue
        if t.op == "phi" and t.args[0] in IN.LOOPS:
            todo.extend(IN.LOOPS[t.args[0]].phis[t])
            continue
        good = False
        for L, acc in conds.items():
            for p in [x for x in L.phis if x.shape == ()]:
                if t is ite(acc, add(p, ONE), p) or t is add(p, ite(acc, ONE, ZERO)):
                    good = True
                    todo.append(p)
                elif has_fin(t, L.id):
                    want = left(L, p, ite(acc, add(p, ONE), p))
                    if t is want or all(given(want, c) is v for c, v in leaves(t)):
                        good = True
                        todo.append(p)
        if good:
            stepped += 1
            continue
        if t.op == "ite":
            todo.extend(t.args[1:])
            continue
        rep.fail(rule, w, "%s: the counter becomes %s" % (what, show(t, 5)[:400]))
        return
    rep.require(stepped > 0, rule, w, what)


def tasks(tier):
    out = []
    for m in S.SAMPLERS:
        cf = {"plain": {}, "callback": dict(callback=S.cb), "x0": dict(x0=S.x0of(m), callback=S.cb), "seed": dict(seed=C.SEED),
              "reject": dict(constraints=const("Reject"), callback=S.cb),
              "reject-x0": dict(constraints=const("Reject"), x0=S.x0of(m))}
        if m == "hmc":
            for n, o in list(cf.items()):
                cf["jac-" + n] = dict(o, jac=S.jac)
        for n, o in cf.items():
            out.append(("%s/%s" % (m, n), check, (m, o, n)))
    return out
