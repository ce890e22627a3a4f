#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
HOOKS = {"guard": "VIECUT_VERIFY_SMALL_LIMITS", "enable": "-DVIECUT_VERIFY_SMALL_LIMITS=2 on the harness compile line (checks.py, SMALL)", "source_commits": ["a0942c7662f5e4adff6c2b0a5d4b0490714cb9c1"]}
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "hooks": HOOKS}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        hs = [h for u in c["units"] for h in u["h"]]
        q = [h for h in hs if h["tier"] == "quick"]
        note = "Bounded: " + "; ".join("%s: %s" % (h["name"], h["bounds"]) for h in q)
        if len(note) > 900:
            note = note[:900] + " ..."
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": "bounded symbolic execution of the real code (LLVM IR), every branch and assertion decided by Z3",
            "level": "model_checking", "level_note": note + ". Outside the bounds nothing is claimed; a path budget that runs out is reported in the evidence."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
m["notes"] = "See DESIGN.md. run.py builds the engine on demand, compiles harness/*.cpp with /repo's current sources, explores, replays and reports."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
