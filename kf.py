#!/usr/bin/env python3
"""kf.py fixed PROPERTY COMMIT TEXT: append a fixed entry to known_findings.json (development helper)"""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
pid, c, w = sys.argv[2:]
d["findings"].append({"property": pid, "status": "fixed", "what": "fixed: property=%s %s %s" % (pid, c, w)})
json.dump(d, open(p, "w"), indent=1)
