#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/not_applicable.json")) if os.path.exists(V + "/not_applicable.json") else {}
tech = json.load(open(V + "/techniques.json"))
checks, nota = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())) and i not in na:
        checks.append({"property": i, "quick_cmd": "python3-vt run.py %s --tier quick" % i,
                       "thorough_cmd": "python3-vt run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "property-based testing: " + tech[i][0], "level": "exploration", "level_note": tech[i][1]})
    else:
        nota.append({"property": i, "reason": na.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import numpy, hypothesis, scipy, mpmath'", "checks": checks,
     "not_applicable": nota, "notes": "Every check builds the code from /repo's working tree into /verif/.cache (content addressed)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nota), "not claimed")
