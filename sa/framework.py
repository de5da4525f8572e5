"""Running obligations over the configurations, in worker processes."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


class Rep:
    """Collects the obligations of one task."""

    def __init__(self, prop, label):
        self.prop = prop
        self.label = label
        self.obs = []
        self.info = {}
        self.prover = None

    def add(self, status, rule, where, text):
        if hasattr(where, "src"):
            where = where.src
        if isinstance(where, (tuple, list)):
            where = "%s:%s (%s)" % tuple(list(where)[:3]) if len(where) >= 3 else str(where)
        self.obs.append((status, rule, where or "?", text))

    def ok(self, rule, where=None, text=""):
        self.add("ok", rule, where, text)

    def fail(self, rule, where=None, text=""):
        self.add("fail", rule, where, text)

    def undecided(self, rule, where=None, text=""):
        self.add("undecided", rule, where, text)

    def require(self, cond, rule, where=None, text="", why=""):
        self.add("ok" if cond else "fail", rule, where, text + ((": " + why) if why and not cond else ""))
        return bool(cond)

    def prove(self, goal, facts, rule, where=None, text="", hyps=(), axioms=(), ints=False, values=False):
        """Obligation decided by descent into joins and loops."""
        from .prove import Prover

        if self.prover is None:
            self.prover = Prover()
        P = self.prover
        if ints:
            # order relations of the integer loop variables that select entries
            from .intinv import infer

            for L, c in infer(goal.terms).items():
                P.ints[L] = list(dict.fromkeys(P.ints.get(L, []) + c))
        if values:
            from .intinv import values as infer_values

            infer_values(goal.terms, P)
        okk = P.prove(goal, list(facts or ()) + list(axioms), hyps)
        self.info["steps"] = self.info.get("steps", 0) + P.steps
        if okk:
            self.ok(rule, where, text)
        elif P.exhausted():
            self.undecided(rule, where, text + ": " + P.failure())
        else:
            self.fail(rule, where, text + ": " + P.failure())
        return okk


def _alarm(s, f):
    raise Timeout()


_ITEMS = []
DEADLINE = [float("inf")]


def _index(i):
    return _work(_ITEMS[i])


def _work(item):
    prop, label, fn, args, limit = item
    t = time.time()
    # what is left of the time of the whole check
    limit = max(3, min(limit, DEADLINE[0] - t))
    rep = Rep(prop, label)
    from .interp import Unsupported

    sys.setrecursionlimit(200000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    status = "done"
    msg = ""
    try:
        fn(rep, *args)
    except Unsupported as e:
        status, msg = "unsupported", "%s at %s" % (e, getattr(e, "src", None))
    except Timeout:
        status, msg = "timeout", "time limit of %d s" % round(limit)
    except RecursionError:
        status, msg = "unsupported", "recursion limit"
    except Exception as e:
        status, msg = "error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-3))
    finally:
        signal.alarm(0)
    return (label, status, msg, rep.obs, rep.info, round(time.time() - t, 2))


def run_tasks(prop, tasks, limit=400, procs=None):
    items = [(prop, label, fn, args, limit) for label, fn, args in tasks]
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(items)))
    if os.environ.get("VERIF_SERIAL"):
        return [_work(i) for i in items]
    ctx = mp.get_context("fork")
    _ITEMS[:] = items
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        return pool.map(_index, range(len(items)), chunksize=1)


def known_findings(prop):
    path = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(l)
    return out
