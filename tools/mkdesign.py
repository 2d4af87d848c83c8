#!/usr/bin/env python3
"""tools/mkdesign.py: writes the table of planted bugs into DESIGN.md"""
import glob, json, re
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
also = json.load(open("/verif/tools/caught.json"))
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    i = m.split("/")[-2]
    rows.append("| %s | %s | %s |" % (i, d["needs"].replace("|", "\\|"), also.get(i, d["property"])))
t = open("/verif/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
if "@@SEEDS@@" in t:
    t = t.replace("@@SEEDS@@\n", a + b)
i, j = t.index(a) + len(a), t.index(b)
open("/verif/DESIGN.md", "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
