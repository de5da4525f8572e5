"""C15 Benchmark functions are their textbook formulas in every dimension."""
from fractions import Fraction

from .common import *
from ..models import PI

EXPLANATION = ("Each benchmark function is interpreted once on a point of symbolic dimension and symbolic entries (as an array and "
               "as a plain sequence); the resulting value expression, in normal form (sums and products over the coordinates "
               "distributed and ordered), must be identical to the normal form of the textbook definition. No statement may "
               "store into the point, keep data, draw numbers or call outside the modelled functions.")
MINIMUM = 6
NAMES = ["ackley", "griewank", "quartic", "rastrigin", "rosenbrock", "sphere", "styblinski_tang"]
N = C.NDIM
E_ = num(Fraction(2.718281828459045))


def total(f, n=N, i=None):
    i = i or fresh("i")
    return redi_sum(n, i, f(i))


def redi_sum(n, i, body):
    return sumt(mapt(n, i, body))


def reference(name, x):
    X = lambda i: at(x, 0, i)
    if name == "sphere":
        return total(lambda i: powi(X(i), 2))
    if name == "quartic":
        return total(lambda i: mul(add(i, ONE), powi(X(i), 4)))
    if name == "rastrigin":
        return add(mul(num(10), N), total(lambda i: sub(powi(X(i), 2), mul(num(10), fn("cos", mul(TWO, PI, X(i)))))))
    if name == "styblinski_tang":
        return add(mul(num(Fraction(1, 2)), total(lambda i: add(powi(X(i), 4), mul(num(-16), powi(X(i), 2)), mul(num(5), X(i))))),
                   mul(num(Fraction("39.16599")), N))
    if name == "rosenbrock":
        return total(lambda i: add(mul(num(100), powi(sub(X(add(i, ONE)), powi(X(i), 2)), 2)), powi(sub(ONE, X(i)), 2)),
                     sub(N, ONE))
    if name == "ackley":
        a = fn("exp", mul(num(Fraction(-1, 5)), sqrt(div(total(lambda i: powi(X(i), 2)), N))))
        b = fn("exp", div(total(lambda i: fn("cos", mul(TWO, PI, X(i)))), N))
        return add(num(20), E_, mul(num(-20), a), neg(b))
    if name == "griewank":
        i = fresh("i")
        p = redi("prod", N, i, fn("cos", div(X(i), sqrt(add(i, ONE)))))
        return add(ONE, div(total(lambda i: powi(X(i), 2)), num(4000)), neg(p))
    raise KeyError(name)


def floats(t):
    """Constants as the doubles they are."""
    e1 = fn("exp", ONE)
    return subst(t, {e1: E_}) if depends(t, e1) else t


def close(a, b):
    d = sub(floats(a), floats(b))
    if d is ZERO:
        return True
    if d.op == "num":
        return abs(d.args[0]) < Fraction(1, 10 ** 9)
    return d.op == "poly" and all(abs(c) < Fraction(1, 10 ** 9) for c, m in d.args)


def run_benchmark(rep, name, seq=False):
    from ..framework import ROOT as root

    I = C.interp(root)
    f = C.resolve(I, "stochopy.factory." + name)
    I.frames.append(C.top_frame(I))
    x = sym("x", (N,))
    a = I.alloc(IN.Obj("lst", x) if seq else IN.Arr(x, "f"), origin="param:x")
    r = C.Run(I, name, {})
    n0 = len(I.events)
    v = I.call(f, [a], {})
    note(rep, r)
    I.events = I.events[n0:]
    r.x = x
    r.value = I.val(v) if I.st.alive else None
    r.f = f
    return r


def check(rep, name, seq):
    r = run_benchmark(rep, name, seq)
    where = (r.f.module.file, r.f.node.lineno, name)
    kind = "plain sequence" if seq else "array"
    if r.value is None:
        ev = [e for e in r.events if e.kind == "raise"]
        rep.fail("value is the textbook definition", ev[0] if ev else where, "%s of a %s raises" % (name, kind))
        return
    ref = reference(name, r.x)
    rep.require(close(r.value, ref), "value is the textbook definition", where, "%s of a %s" % (name, kind),
                why="the code computes %s, the definition is %s" % (show(r.value, 12)[:500], show(ref, 12)[:500]))
    for e in r.events:
        if e.kind == "write":
            rep.require(not e.origin and not e.lib, "pure function of the point", e, name,
                        why="stores into %s" % (e.origin or "library data"))
        elif e.kind in ("draw", "seed", "extern", "global_write", "set_state"):
            rep.fail("pure function of the point", e, e.kind)
        elif e.kind == "raise":
            rep.fail("defined for every point", e, "%s of a %s raises under %s" % (name, kind, [show(c, 3) for c in e.pc]))


def tasks(tier):
    return [("%s/%s" % (n, "sequence" if s else "array"), check, (n, s)) for n in NAMES for s in (False, True)]
