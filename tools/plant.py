#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]: turn edits into seeded/<id>/ and confirm them in a scratch copy of /repo.

SPEC.py defines BUGS = {id: dict(prop, edits=[(file, old, new[, occurrence])], needs, breaks, demo)};
demo is a Python program run from the repository root: exit 0 where the property holds.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1",
           OMPI_MCA_plm="isolated")
DEMO = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD OMP_NUM_THREADS=1\n' \
       'export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated\n' \
       'PY=/opt/venv/bin/python\n[ -x $PY ] || PY=python3\n%s\n'


def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, PYTHONPATH=cwd), capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    base = "/tmp/plant.%d" % os.getpid()
    for i in ids:
        b = bugs[i]
        shutil.rmtree(base, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", base], check=True)
        d = os.path.join(base, "..", os.path.basename(base) + ".d")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % b.get("run", 'exec $PY "$D/demo.py"'))
        r0, o0 = sh(["bash", os.path.join(d, "demo.sh")], base)
        for e in b["edits"]:
            f, old, new = e[:3]
            p = os.path.join(base, f)
            s = open(p).read()
            n = s.count(old)
            k = e[3] if len(e) > 3 else 0
            if n == 0 or (n > 1 and len(e) < 4):
                print(i, "edit matches %d times in %s: %r" % (n, f, old))
                break
            parts = s.split(old)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(s)
        else:
            r1, o1 = sh(["bash", os.path.join(d, "demo.sh")], base)
            rt, ot = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", "tests"], base)
            ok = r0 == 0 and r1 != 0 and rt == 0
            print(i, b["prop"], "KEPT" if ok else "REJECTED", "demo before %d after %d tests %d" % (r0, r1, rt))
            if r0:
                print(o0[-600:])
            if r1 == 0:
                print(o1[-300:])
            if rt:
                print("\n".join(l for l in ot.splitlines() if "FAILED" in l or "Error" in l)[-600:])
            if ok:
                out = os.path.join(HERE, "seeded", i)
                os.makedirs(out, exist_ok=True)
                diff = subprocess.run(["git", "diff", "--", "stochopy"], cwd=base, capture_output=True, text=True).stdout
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                for f in ("demo.sh", "demo.py"):
                    shutil.copy(os.path.join(d, f), os.path.join(out, f))
                json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                          open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(base, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


main()
