#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property from the source of /repo."""
import importlib
import json
import os
import resource
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
try:
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
except Exception:
    try:
        h = resource.getrlimit(resource.RLIMIT_STACK)[1]
        resource.setrlimit(resource.RLIMIT_STACK, (h, h))
    except Exception:
        pass
from sa import framework as fw


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = sys.argv[3:] if len(sys.argv) > 3 else None
    t = time.time()
    mod = importlib.import_module("sa.props." + prop.lower())
    tasks = mod.tasks(tier)
    if only:
        tasks = [x for x in tasks if any(o in x[0] for o in only)]
    fw.DEADLINE[0] = t + (780 if tier == "quick" else 7200)
    results = fw.run_tasks(prop, tasks, limit=getattr(mod, "LIMIT", 300 if tier == "quick" else 800))
    n = dict(ok=0, fail=0, undecided=0)
    fails, und = [], []
    sites, rules = set(), {}
    files, funcs, stmts, steps, events = set(), set(), 0, 0, 0
    samples = []
    for label, status, msg, obs, info, secs in results:
        for s, rule, where, text in obs:
            n[s] += 1
            sites.add((rule, where))
            rules[rule] = rules.get(rule, 0) + 1
            if s == "fail":
                fails.append((label, rule, where, text))
            elif s == "undecided":
                und.append((label, rule, where, text))
        oks = [o for o in obs if o[0] == "ok"]
        if oks and len(samples) < 12:
            s, rule, where, text = oks[-1]
            samples.append("%s | %s | %s | %s" % (label, rule, where, text[:300]))
        if status != "done":
            und.append((label, status, "?", msg))
        files.update(info.get("files", ()))
        funcs.update(info.get("funcs", ()))
        stmts += info.get("stmts", 0)
        steps += info.get("steps", 0)
        events += info.get("events", 0)
        if os.environ.get("VERIF_VERBOSE"):
            print("%-40s %-10s %6.1fs ok=%d fail=%d und=%d %s" % (
                label, status, secs, sum(o[0] == "ok" for o in obs), sum(o[0] == "fail" for o in obs),
                sum(o[0] == "undecided" for o in obs), msg[:1500]))
    minimum = getattr(mod, "MINIMUM", 1)
    # one report per construct and rule
    known = fw.known_findings(prop)
    seen = {}
    for label, rule, where, text in fails:
        seen.setdefault((rule, where), []).append((label, text))
    unknown = []
    for (rule, where), l in seen.items():
        k = [x for x in known if rule in x and where.split(" ")[-1] in x]
        if not k:
            unknown.append((rule, where, l))
    for x in known:
        print(x)
    EV = os.environ.get("VERIF_EVIDENCE") or os.path.join(fw.HERE, "evidence")
    os.makedirs(EV, exist_ok=True)
    rp = os.path.join(EV, prop + ".violation.txt")
    if os.path.exists(rp):
        os.remove(rp)
    broken = n["ok"] + n["fail"] < minimum
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "explanation": mod.EXPLANATION,
            "obligations": sum(n.values()),
            "discharged": n["ok"],
            "undecided": [" | ".join(u)[:400] for u in und[:20]],
            "undecided_count": len(und),
            "configurations": len(results),
            "configurations_completed": sum(r[1] == "done" for r in results),
            "rules": rules,
            "sites": len(sites),
            "functions": sorted(funcs),
            "files": sorted(files),
            "statements_interpreted": stmts,
            "events": events,
            "descent_steps": steps,
            "samples": samples,
            "checker_cmd": "python3 check.py %s %s" % (prop, tier),
            "trusted_base": mod.TRUSTED if hasattr(mod, "TRUSTED") else TRUSTED,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t, 2),
        "violations": len(unknown),
    }
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in und[:10]:
        print("UNDECIDED", " | ".join(u)[:700])
    print("%s: %d obligations in %d configurations, %d established, %d refuted, %d undecided, %d functions, %.1f s" % (
        prop, sum(n.values()), len(results), n["ok"], n["fail"], len(und), len(funcs), time.time() - t))
    if unknown:
        with open(rp, "w") as f:
            for rule, where, l in unknown:
                f.write("%s\n  rule: %s\n" % (where, rule))
                for label, text in l:
                    f.write("  configuration %s: %s\n" % (label, text))
        for rule, where, l in unknown[:12]:
            print("  %s: %s [%s, %d configuration(s)] %s" % (where, rule, l[0][0], len(l), l[0][1][:900]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN: only %d obligations decided, at least %d expected" % (n["ok"] + n["fail"], minimum))
        return 2
    return 0


TRUSTED = [
    "sa/interp.py, sa/loops.py: abstract interpretation of the Python source (joins, loop fixpoints)",
    "sa/models.py: models of the numpy, joblib and mpi4py functions the package calls",
    "sa/terms.py, sa/order.py: normal forms of value terms, interval and sign reasoning",
    "sa/prove.py: descent through joins and loops",
]
COMMON_ASSUMPTIONS = [
    "floating-point rounding is ignored: arithmetic is the arithmetic of the reals",
    "the objective, gradient and callback are deterministic, do not touch numpy's generator and do not modify their arguments' aliases; the objective returns a scalar that is not NaN",
    "bounds satisfy lower < upper; numeric parameters lie in their documented ranges",
]

if __name__ == "__main__":
    sys.exit(main())
