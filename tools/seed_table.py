#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append("| `%s` | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"]))
f = os.path.join(R, "DESIGN.md"); s = open(f).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
open(f, "w").write(s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):])
