#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
MBT = "Quint specification explored with quint run (invariants in every state met); behaviours and seeded problems replayed into the real code and the recorded results validated step by step against the specification"
TV = "Quint specification; results recorded from the real code are accepted only as steps of the specification's machine (trace validation)"
AP = "Quint specification verified with Apalache (bounded) and explored with quint run; its behaviours (ITF traces) replayed into the real code and validated against the specification"
NOTE = "Decides every observed execution against the specification in exact fixed-point arithmetic (120 fractional bits); inputs and budgets are sampled from a seed, so inputs never generated are not covered. "
T = {}
for i in range(1, 28):
    T["C%02d" % i] = TV
for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 25):
    T["C%02d" % i] = MBT
for i in (16, 17, 18):
    T["C%02d" % i] = AP
EX = {
 "C01": "Certificates of optimality for fits with ample budget; convexity gives a bound against other coefficient vectors.",
 "C02": "Certificates of optimality in row norm, one description for single-task and multi-task problems.",
 "C03": "Critical points and objective below the null vector's; for logistic losses only data whose infimum is attained.",
 "C04": "Certificates and descent over growing budgets for the logistic loss.",
 "C05": "Objectives over growing budgets, within 1e-12 of the null objective.",
 "C06": "Every pass replayed by the reference machine, agreement to 1e-9.",
 "C07": "Working sets are inferred from the passes and, where the crate exposes it, checked at the low-level call.",
 "C08": "Settings compared on problems with a unique optimum; degenerate problems only for robustness.",
 "C09": "Extrapolation recomputed exactly from the recorded iterates; when rounding could decide, only descent is demanded.",
 "C21": "Exact rational residuals; singular matrices of small integers must be reported.",
 "C22": "Tolerances of single precision (1e-3 on pairs of fits, 2e-6 on building blocks).",
 "C25": "Four penalties, one loss, one design type and one target type stand for what a user may supply.",
 "C26": "Statistics of the generator are held to seven standard deviations.",
 "C27": "Differences are exactly representable, so no rounding decides; two equal infinities are left out.",
 "C23": "Runs the Python package of the current tree with the extension just built.",
}
checks = [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
           "technique": T[p], "level": "model_checking", "level_note": NOTE + EX.get(p, "")} for p in sorted(T)]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "Quint (see DESIGN.md). No hooks in /repo: the public API exposes the abstract state (iterates at every budget)."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
