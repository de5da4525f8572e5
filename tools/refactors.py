#!/usr/bin/env python3
"""refactors.py [-c C01,C02] [ID ...]: the checks must stay quiet on edits that keep the behaviour.

Each edit of tools/refactor_edits.py is applied to a scratch copy of /repo, the test suite is run there once
(-t), and then the registered checks.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def apply(base, edits):
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(base, f)
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (n > 1 and len(e) < 4):
            raise SystemExit("edit matches %d times in %s: %r" % (n, f, old))
        k = e[3] if len(e) > 3 else None
        if k == "all":
            s = s.replace(old, new)
        else:
            k = k or 0
            parts = s.split(old)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)


def main():
    a = sys.argv[1:]
    test = "-t" in a
    a = [x for x in a if x != "-t"]
    props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    if "-c" in a:
        i = a.index("-c")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    R = runpy.run_path(os.path.join(HERE, "tools/refactor_edits.py"))["REFACTORS"]
    bad = 0
    for rid in a or list(R):
        base = "/tmp/refactor.%d" % os.getpid()
        shutil.rmtree(base, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", base], check=True)
        apply(base, R[rid])
        if test:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=base,
                               env=dict(os.environ, PYTHONPATH=base), capture_output=True, text=True)
            print(rid, "tests", "pass" if r.returncode == 0 else "FAIL " + r.stdout[-300:], flush=True)

        for p in props:
            r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p, "quick"], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=base, VERIF_EVIDENCE=base + "/.ev"))
            und = [l for l in r.stdout.splitlines() if l.startswith("UNDECIDED")]
            if r.returncode or und:
                bad += r.returncode != 0
                print(rid, p, "exit", r.returncode, "undecided", len(und), flush=True)
                for l in ([l for l in r.stdout.splitlines() if not l.startswith("UNDECIDED")][:6] if r.returncode else und[:3]):
                    print("    " + l[:400], flush=True)
        print(rid, "done", flush=True)
        shutil.rmtree(base, ignore_errors=True)
    print("noisy:", bad)


main()
