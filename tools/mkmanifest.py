#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a contract module, the rest under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "notes.py")).read(), NOTES)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
base = ("Every obligation generated from /repo's current source under the contracts in contracts/%s.py is discharged by z3, for all dimensions, batch sizes and "
        "parameter values. Assumes: numpy/time/scipy calls satisfy the contracts in vf/npm.py (cross-checked against the real libraries on sampled inputs in the same run), "
        "real arithmetic instead of doubles (NaN and infinities tracked, rounding not), the obligation generator itself. ")
mixed = ("Mixed: the functions named below are under contract (contracts/%s.py, harnesses h_*) and every obligation generated from /repo's current source is discharged by z3; "
         "for the rest a bounded stand-in (harnesses b_*: the real code on sampled parameters, targets, histories and random outcomes, against an independent oracle) is run, "
         "labelled bounded in the evidence and not counted as proved. Assumes: the numpy/time/scipy contracts in vf/npm.py, real arithmetic instead of doubles, the obligation generator. ")
for p in props:
    i = p["id"]
    if i in NOTES["NOT_APPLICABLE"]:
        na.append({"property": i, "reason": NOTES["NOT_APPLICABLE"][i]})
    elif os.path.exists(os.path.join(V, "contracts", i.lower() + ".py")) and i not in NOTES["PENDING"]:
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "technique": NOTES["TECH"].get(i, "deductive contracts on the real source: per-function obligations discharged by z3, models replayed on the real code"),
                       "level": NOTES["LEVEL"].get(i, "proof"), "level_note": (base if i not in NOTES["LEVEL"] else mixed) % i.lower() + NOTES["NOTE"].get(i, "")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import numpy'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts live in /verif/contracts and are attached to the unmodified source by vf/load.py."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
