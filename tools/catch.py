#!/usr/bin/env python3
"""catch.py [-a] [ID ...]: run the check of each planted bug (with -a every check) on a scratch copy with the bug applied."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
checks = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]] if every else None
base = "/tmp/catch.%d" % os.getpid()
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    shutil.rmtree(base, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", base], check=True)
    r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=base, capture_output=True, text=True)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stderr)
        continue
    for p in checks or [meta["property"]]:
        t = time.time()
        r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "quick"], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=base, VERIF_EVIDENCE="/tmp/catch.ev"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if every and not v:
            continue
        print("%-28s %s %s %.0fs" % (i, p, "CAUGHT" if v and r.returncode == 1 else "missed rc=%d" % r.returncode, time.time() - t))
        if v:
            print("\n".join("     " + l[:330] for l in r.stdout.splitlines() if l.startswith("  "))[:900])
        else:
            print("\n".join("     " + l[:300] for l in (r.stdout + r.stderr).splitlines()[-4:]))
        sys.stdout.flush()
    shutil.rmtree(base, ignore_errors=True)
