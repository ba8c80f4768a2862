#!/usr/bin/env python3
"""Regenerates the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted -->\n"
t = open(V + "/DESIGN.md").read().split(MARK)[0]
rows = ["| change | property | file | needs | what it breaks |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    d = os.path.dirname(f)
    files = sorted({l[6:].strip() for l in open(d + "/patch.diff") if l.startswith("+++ b/")})
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), m["property"], ", ".join(files), m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(V + "/DESIGN.md", "w").write(t + MARK + "\n".join(rows) + "\n")
