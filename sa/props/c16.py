"""C16 Runs have no hidden side effects and never swallow exceptions."""
import ast

from .. import interp as IN
from .c15 import NAMES, run_benchmark
from .common import *

EXPLANATION = ("Effect analysis: every operation of the interpreted call that is not a value computation is an event (module "
               "attribute or global written, library-level data or function attribute written, call of an unmodelled external "
               "such as print or open, generator state). Only advancing, seeding or re-broadcasting numpy's generator is "
               "allowed. For every call of the objective, gradient and callback the enclosing try statements are inspected: a "
               "handler must end in a bare raise and a finally clause must not leave the function or loop; worker pools must "
               "be opened by a with statement (or closed in a finally clause). Instances: effects and user call sites per configuration.")
MINIMUM = 150
OKEXT = ("numpy.errstate",)


def leaves_block(body):
    """Statements of a finally clause that would discard the exception."""
    out = []

    def walk(n, loop):
        for c in ast.iter_child_nodes(n) if not isinstance(n, list) else n:
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, ast.Return) or isinstance(c, (ast.Break, ast.Continue)) and not loop:
                out.append(c)
            walk(c, loop or isinstance(c, (ast.For, ast.While)))

    walk(body, False)
    return out


def reraises(h):
    """Whether a handler certainly ends by raising what it caught."""
    if leaves_block(h.body):
        return False

    def ends(body):
        if not body:
            return False
        s = body[-1]
        if isinstance(s, ast.Raise):
            return s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id == h.name and s.cause is None
        if isinstance(s, ast.If):
            return ends(s.body) and ends(s.orelse)
        if isinstance(s, ast.With):
            return ends(s.body)
        if isinstance(s, ast.Try):
            return not s.handlers and (ends(s.body) or ends(s.finalbody))
        return False

    return ends(h.body)


def effects(rep, evs, entry):
    bad = 0
    for e in evs:
        if e.kind == "extern":
            if not rep.require(any(e.name.startswith(x) or e.name.startswith("with ") and x in e.name for x in OKEXT),
                               "no effect outside the call", e, e.name):
                bad += 1
        elif e.kind == "global_write":
            rep.fail("no process-wide state is changed", e, e.name)
            bad += 1
        elif e.kind == "write" and e.lib:
            rep.fail("no library-level data is changed", e, str(e.path))
            bad += 1
        elif e.kind == "mutate_arg":
            rep.fail("no attribute of a caller's function is written", e, e.name)
            bad += 1
    if not bad:
        rep.ok("no effect outside the call", (entry, 0, entry), "%d events" % len(evs))


def check(rep, m, opts, name):
    r = start(rep, m, opts)
    evs = after_import(r)
    effects(rep, evs, r.entry)
    for e in evs:
        if e.kind in ("eval", "grad", "callback"):
            what = {"eval": "objective", "grad": "gradient", "callback": "callback"}[e.kind]
            good = True
            for t in e.tries:
                if t.node is None:
                    continue
                for h in t.node.handlers:
                    if not reraises(h):
                        good = False
                        rep.fail("exceptions of user functions reach the caller unchanged", e,
                                 "%s called under a handler (line %d) that does not re-raise" % (what, h.lineno))
                for s in leaves_block(t.node.finalbody):
                    good = False
                    rep.fail("exceptions of user functions reach the caller unchanged", e,
                             "%s called under a finally clause that leaves (line %d)" % (what, s.lineno))
            if good:
                rep.ok("exceptions of user functions reach the caller unchanged", e, what)
        elif e.kind == "pool_enter":
            good = e.scoped
            if not good:
                # closed in a finally clause around every call
                outs = [x for x in evs if x.kind == "pool_exit" and x.loc == e.loc]
                calls = [x for x in evs if x.kind in ("eval", "callback")]
                good = bool(outs) and all(any(t.has_finally for t in x.tries) for x in calls)
            rep.require(good, "worker pools are released", e, "pool entered")


def bench(rep, n):
    r = run_benchmark(rep, n)
    effects(rep, r.events, n)


def tasks(tier):
    return each(S.METHODS, tier, check) + [("factory/" + n, bench, (n,)) for n in NAMES]
