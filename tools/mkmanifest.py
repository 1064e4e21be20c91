#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl is claimed, except those in SKIP."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = json.load(open(os.path.join(V, "tools", "skip.json")))
NOTE = {
    "W": "TLC explores the operation histories of a weighting structure exhaustively to a depth (MCWeights) and they are "
         "executed on every weighting model; TLC then validates every observed step against the laws of the "
         "specification (TraceWeights, IEEE arithmetic through module F64). Bounded: histories and parameters are finite "
         "samples; distributions are checked through the parameters of recorded draws and 6.5-sigma moment tests. Trusts "
         "numpy and scipy primitives.",
    "V": "Every recorded variational fit is recomputed from the laws written in TLA+ (VarLaws, TraceVar*) by TLC at every "
         "iteration. Bounded to the generated data sets, models and histories; trusts numpy, scipy and sklearn primitives.",
    "G": "Chains and fit histories enumerated from a TLA+ schedule model are run on the real samplers, and TLC validates "
         "each saved state and answer against the sampler specification. Randomness is judged through recorded draw "
         "parameters and martingale tests at 6.5 sigma. Bounded to the generated data and histories.",
    "L": "Session histories enumerated by TLC from the life-cycle model are executed on the real mixtures; TLC checks "
         "the recorded answers against the abstract session state. Bounded to the history depth and the data sets used.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in SKIP:
        na.append(dict(property=p, reason=SKIP[p]))
        continue
    checks.append(dict(property=p, quick_cmd="./check.sh " + p, thorough_cmd="VERIF_TIER=thorough ./check.sh " + p,
                       evidence_file="evidence/%s.json" % p,
                       technique="TLA+ specification: TLC-generated behaviours replayed on the code and TLC trace validation",
                       level="model_checking", level_note=NOTE[p[0]]))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: the harness observes the public API and wraps numpy/scipy random primitives from outside."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
