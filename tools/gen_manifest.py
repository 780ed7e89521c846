#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED lists the properties with a working check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NEWTON = ("TLA+ design (Newton.tla) model-checked with TLC; its complete behaviours replayed into the real solver; "
          "recorded calls judged by the same TLA+ monitor")
DENSE = ("TLA+ design (DenseLU.tla) model-checked with TLC over all small matrices; recorded sessions of the real solver "
         "judged by TLA+ predicates in exact rational arithmetic")
TECH, NOTE = {}, {}
for i in range(1, 9):
    TECH["N%02d" % i] = NEWTON
    NOTE["N%02d" % i] = ("Every complete solve of the design with iteration limits 0..3 (thorough 0..4) and all answers of the user "
        "routines is replayed into Newton<f32/f64, 1..12>, plus long random lives; bounded by those scripts. Trusts TLC, the "
        "recording harness and that user routines obey their interface.")
for i in range(1, 6):
    TECH["L%02d" % i] = DENSE
    NOTE["L%02d" % i] = ("All 2x2 matrices over -2..2 and many or all 3x3 over -1..1 exactly, random and structured matrices up to "
        "12 (thorough 20) in exact, double and single arithmetic; floating-point judged against backward-error bounds. Trusts TLC, "
        "the rational arithmetic override and the recording harness.")
TECH["W01"] = "recorded evaluations of the real function judged by a TLA+ predicate in exact rational arithmetic (TLC)"
NOTE["W01"] = "Exact rational comparison on grids and random vectors of 1..129 (thorough 4097) components in three storage kinds."
CLAIMED = sorted(TECH)
exec(open(os.path.join(V, "tools", "ida_manifest.py")).read()) if os.path.exists(os.path.join(V, "tools", "ida_manifest.py")) else None
NA = globals().get("NA", {})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p,
                 "thorough_cmd": "python3 bin/check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": TECH[p], "level": "model_checking", "level_note": NOTE[p]}
                for p in props if p in TECH],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in TECH]}
if globals().get("HOOKS"):
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
