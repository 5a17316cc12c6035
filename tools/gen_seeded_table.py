#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md section 11."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(V, "seeded", "*", "meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = d.index("<!-- seeded: begin -->"), d.index("<!-- seeded: end -->")
t = "<!-- seeded: begin -->\n| property | planted bug | needs |\n|---|---|---|\n" + "".join("| %s | %s | %s |\n" % (p, i, n.replace("|", "/")) for p, i, n in sorted(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(d[:a] + t + d[b:])
