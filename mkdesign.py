#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md from design.tpl.md, known-findings.json and seeded/."""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
t = open(os.path.join(H, "design.tpl.md")).read()
k = json.load(open(os.path.join(H, "known-findings.json")))["findings"]
rows = ["| status | property | what |", "|---|---|---|"]
for f in k:
    w = f["what"].replace("|", "\\|")
    if f["status"] == "fixed":
        w = w.split(" ", 3)[3]
        rows.append("| fixed, %s | %s | %s |" % (f["commit"], f["property"], w))
    else:
        rows.append("| known, not repaired | %s | %s |" % (f["property"], w))
t = t.replace("@@DEFECTS", "\n".join(rows))
rows = ["| id | needs | breaks | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["needs"], d["what_it_breaks"], d["property"]))
t = t.replace("@@SEEDED", "\n".join(rows))
open(os.path.join(H, "DESIGN.md"), "w").write(t)
