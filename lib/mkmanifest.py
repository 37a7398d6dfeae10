#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from the registry (run by hand after changing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry as R
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in R.CHECKS:
        c = R.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": R.TECHNIQUE[i], "level": "exploration",
                       "level_note": R.LEVEL_NOTE[i]})
    else:
        na.append({"property": i, "reason": R.NOT_APPLICABLE.get(i, "the check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses replace the library's atomics by macros in their own translation units. "
              "Known and fixed findings: known_findings.txt. Replay a saved case: python3 check.py --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", [x["property"] for x in na], "not")
