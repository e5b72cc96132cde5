#!/usr/bin/env python3
# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + "/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
rows.sort()
t = ["<!-- seeded -->", "", "| caught by | planted bug | what it breaks | needs |", "|---|---|---|---|"]
t += ["| %s | %s | %s | %s |" % tuple(c.replace("|", "\\|").replace("\n", " ") for c in r) for r in rows]
p = root + "/DESIGN.md"
s = open(p).read()
i = s.find("SEEDED_TABLE") if "SEEDED_TABLE" in s else s.index("<!-- seeded -->")
open(p, "w").write(s[:i] + "\n".join(t) + "\n")
