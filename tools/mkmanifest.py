#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("abstract interpretation of the Python source into gated value terms (joins, loop fixpoints, models of numpy/joblib/"
        "mpi4py)")
TECH = {
    "C01": BASE + "; inductive dataflow facts 'value is the objective at point' at every report site",
    "C02": BASE + "; inductive order facts against a ghost minimum over all evaluations",
    "C03": BASE + "; inductive facts relating history rows to the callback snapshots",
    "C04": BASE + "; joint induction over the point tables of loops with interval rules",
    "C05": BASE + "; value-dependence (taint) analysis from generator state, clock and uninitialised memory",
    "C06": BASE + "; coinductive comparison of the value graphs of serial and parallel runs",
    "C07": BASE + "; alias and effect analysis of every store against caller-owned objects",
    "C08": BASE + "; ghost counters at callback sites and coinductive comparison of value graphs",
    "C09": BASE + "; inductive equalities between counters and ghost evaluation counts",
    "C10": BASE + "; reaching-values analysis of status, success and message",
    "C11": BASE + "; path conditions of loop exits and back edges",
    "C12": BASE + "; coinductive comparison of value graphs of the two ways of calling; use of every option",
    "C13": BASE + "; path conditions of raise statements before the first evaluation",
    "C14": BASE + "; shape and call-signature analysis of every call of a user function",
    "C15": BASE + "; normal form of the returned expression compared with the textbook formula",
    "C16": BASE + "; effect analysis of every external call, store and handler",
    "C17": BASE + "; effect and return-value analysis of the result class's methods",
    "C18": BASE + "; acceptance condition and its two edges in normal form",
    "C19": BASE + "; store regions of the sweep loop and normal form of the perturbation",
    "C20": BASE + "; normal form of the integrator's loop body and gradient",
    "C21": BASE + "; normal form of the trial vector, provenance of the random indices",
    "C22": BASE + "; normal form of the velocity update, store regions of the restart",
    "C23": BASE + "; normal form of the resampling step, interval facts on the walk",
    "C24": BASE + "; normal form of weights and mean, sign facts on the penalty",
    "C25": BASE + "; affine interval and permutation facts on the initial population",
}
NOTE = ("Decides the property for all inputs of the enumerated option configurations from the current source; a violation names the "
        "construct. Trusted: the interpreter, the numpy/joblib/mpi4py models and the term normal forms in /verif/sa; real "
        "arithmetic instead of floating point; objective deterministic and never NaN; lower < upper. Constructs outside the "
        "analysed subset are reported as undecided in the evidence, not as held.")
NA = {
    "C91": "convergence quality on concrete objectives depends on trajectories of random draws; no static bound in reach",
    "C92": "long-run distribution of a Markov chain is a limit statement; the acceptance rule and proposals it rests on are decided by C18-C20",
    "C93": "wall-clock behaviour of schedulers and processes is not a property of the source text",
    "C94": "finiteness of the covariance model depends on floating-point trajectories of unbounded length; no sound static bound in reach",
}
PENDING = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    na = []
    for p in props:
        if p in NA:
            na.append(dict(property=p, reason=NA[p]))
        elif p in PENDING or not os.path.exists(os.path.join(HERE, "sa/props", p.lower() + ".py")):
            na.append(dict(property=p, reason=PENDING.get(p, "check not finished yet")))
        else:
            checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                               technique="static analysis: " + TECH[p], level="other", level_note=NOTE))
    json.dump(dict(version=1, setup_cmd="python3 --version", checks=checks, not_applicable=na,
                   notes="Pure static analysis with the standard library of /usr/bin/python3; nothing of /repo is executed."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
