"""The leapfrog of HMC as a word of kicks and drifts."""
from .extract import *


def square(p):
    return sumt(powi(p, 2))


def gradient(r, Q):
    """Gradient the run uses at Q."""
    for e in r.events:
        if e.kind == "grad":
            ex = tuple(e.extras)
            return mk("grad", (r.params["jac"].name, Q, ex), Q.shape)
    h = r.params["finite_diff_abs_step"]
    i = fresh("i")
    up = obj_at(r, sto(Q, 0, i, add(at(Q, 0, i), h)))
    dn = obj_at(r, sto(Q, 0, i, sub(at(Q, 0, i), h)))
    return mul(div(ONE, mul(TWO, h)), mapt(Q.shape[0], i, sub(up, dn)))


def scale(r):
    """Step per coordinate."""
    b = r.I.val(r.params["bounds"])
    s = r.params["stepsize"]
    s = r.I.val(s) if not isinstance(s, T) else s
    return mul(s, div(ONE, TWO), sub(at(b, 1, ONE), at(b, 1, ZERO)))


class Scheme:
    """Proposal of one iteration: word = ops before the loop, in the loop, after it."""

    def __init__(self, r, sx, prop, al=None):
        self.al = al or {}
        self.r, self.s = r, scale(r)
        self.q0 = sx.before
        fl = [n for n in nodes(prop) if n.op == "fin" and n.shape == prop.shape and n.args[1].op == "phi"]
        fl = [n for n in fl if n.args[0] in IN.LOOPS]
        if not fl:
            raise LookupError("no integration loop in the proposal")
        M = IN.LOOPS[fl[0].args[0]]
        self.M = M
        self.q, self.p = None, None
        vec = [p for p in M.phis if p.shape == prop.shape]
        # position: the one whose gradient is used; momentum: the other
        for q in vec:
            for p in vec:
                if p is q:
                    continue
                try:
                    self.read(q, p, prop, vec)
                    return
                except LookupError as e:
                    self.why = e
        raise LookupError(str(getattr(self, "why", "no position and momentum in the loop")))

    def read(self, q, p, prop, vec):
        r, M = self.r, self.M
        ex = {}
        for v in vec:
            if v not in (q, p):
                # a stored gradient
                i, n = M.phis[v]
                G = gradient(r, M.phis[q][1])
                if n is G:
                    ex[v] = gradient(r, q)
        loop = self.word(subst(M.phis[q][1], ex), subst(M.phis[p][1], ex), q, p)
        fq, fp = fin(M.id, q), fin(M.id, p)
        if prop is fq:
            after = []
        elif prop is add(fq, mul(self.s, fp)):
            after = ["D"]
        else:
            raise LookupError("the proposal is %s after the loop" % show(prop, 4))
        iq, ip = (subst(x, self.al) for x in (M.phis[q][0], M.phis[p][0]))
        # the momentum draw of the iteration
        cand = []
        for n in nodes(ip):
            if n.op == "rnd" and n.shape == prop.shape and n.args[0] == "norm":
                cand.append(n)
        cand = [c for c in cand if not any(depends(x, c) and x is not c and x.op == "rnd" for x in cand)]
        for p0 in cand:
            try:
                init = self.word(iq, ip, self.q0, p0)
            except LookupError as e:
                self.why = e
                continue
            self.q, self.p, self.p0 = q, p, p0
            self.init, self.loop, self.after = init, loop, after
            end = sub(fp, mul(div(ONE, TWO), self.s, gradient(r, prop)))
            self.pend = end
            return
        raise LookupError("the start of the integration is not the current sample with a fresh normal momentum: %s" % getattr(self, "why", show(ip, 4)))

    def word(self, Q, P, q, p, depth=6):
        """Kicks and drifts leading from (q, p) to (Q, P)."""
        if Q is q and P is p:
            return []
        if depth == 0:
            raise LookupError("no sequence of momentum and position steps gives (%s, %s)" % (show(Q, 4)[:200], show(P, 4)[:200]))
        G = gradient(self.r, Q)
        for c, nm in ((ONE, "K"), (div(ONE, TWO), "k")):
            P2 = add(P, mul(c, self.s, G))
            if size_of(P2) < size_of(P):
                try:
                    return self.word(Q, P2, q, p, depth - 1) + [nm]
                except LookupError:
                    pass
        for c, nm in ((ONE, "D"), (div(ONE, TWO), "d")):
            Q2 = sub(Q, mul(c, self.s, P))
            if size_of(Q2) < size_of(Q):
                try:
                    return self.word(Q2, P, q, p, depth - 1) + [nm]
                except LookupError:
                    pass
        raise LookupError("no sequence of momentum and position steps gives (%s, %s)" % (show(Q, 4)[:200], show(P, 4)[:200]))


def size_of(t):
    return len(t.args) if t.op == "poly" else 1
