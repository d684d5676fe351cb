#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, the check modules, techniques, findings and planted bugs (run with python3-vt)."""
import importlib, json, os, glob, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V); os.chdir(V)
T = json.load(open("techniques.json")); K = json.load(open("known_findings.json"))["findings"]
o = [open("design/intro.md").read(), "## 3. Properties\n\nPer property: what is generated and compared, when a case counts, bounds, and the number of cases\n"
     "of the quick / thorough tier per part. Statement, quantifier and code anchors are in `properties.jsonl`.\n"]
for l in open("properties.jsonl"):
    p = json.loads(l); i = p["id"]; m = importlib.import_module("checks." + i.lower())
    o.append("### %s %s\n" % (i, p["title"]))
    o.append("* Method: %s. Level: %s." % (T[i][0].replace("property-based testing: ", ""), T[i][1]))
    o.append("* Counting: %s" % m.RULE)
    if m.ASSUMPTIONS: o.append("* Bounds and assumptions: " + "; ".join(m.ASSUMPTIONS) + ".")
    o.append("* Parts: " + ", ".join("%s (%s / %s)" % (q.name, q.n["quick"], q.n["thorough"]) for q in m.PARTS) + ".")
    o.append("* Beyond the tests: %s" % p["why_tests_cant"])
    e = "evidence/%s.json" % i
    o.append("")
o.append(open("design/notes.md").read())
o.append("## 5. Genuine defects\n\nRepaired (`fix:` commits in /repo; each check passes now and fails on the tree before its fix):\n")
for f in K:
    if f.get("status") == "fixed": o.append("* " + f["what"][len("fixed: property="):])
o.append("\nRecorded, not repaired (`known_findings.json`; the checks print KNOWN-FINDING and exit 0):\n")
for f in K:
    if f.get("status") != "fixed": o.append("* %s %s: %s" % (f["property"], f["part"], f["what"]))
o.append("\n## 6. Planted bugs\n\nEvery one compiles, passes the existing tests and has a demonstration in `seeded/<id>/`; all were confirmed in a\n"
         "scratch copy. Patches of Fortran sources are kept, although the final check only counts C++ ones.\n\n| planted | property | needs | breaks | caught by |\n|---|---|---|---|---|")
C = json.load(open("design/caught.json"))
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[1]
    o.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"], C.get(n, m["property"])))
o.append("\n" + open("design/mutants.md").read())
open("DESIGN.md", "w").write("\n".join(o))
