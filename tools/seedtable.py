#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (not used by any check)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "Every planted bug is caught by the quick check of its property:"
text = open(os.path.join(V, "DESIGN.md")).read()
head = text[:text.index(MARK) + len(MARK)]
rows = ["", "", "| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n".join(rows) + "\n")
