#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (kept in step by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tool", "manifest_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": [], "not_applicable": [],
     "notes": "Static analysis only; every check re-extracts the facts of all translation units of /repo/src with a libTooling front end on each run. "
              "Known findings are in known_findings.json, results of repairs too."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": t, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
