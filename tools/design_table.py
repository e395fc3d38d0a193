#!/usr/bin/env python3
"""Rewrite the findings list in DESIGN.md from findings/known.jsonl."""
import json, os, re, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.OrderedDict()
for l in open(os.path.join(R, "findings", "known.jsonl")):
    if l.strip():
        o = json.loads(l)
        d.setdefault(o["property"], []).append(o)
out = []
for p in sorted(d):
    out.append("* **%s**" % p)
    for o in d[p]:
        out.append("  * %s`%s` %s" % ("" if o["status"] == "fixed" else "OPEN ", o.get("commit", "-"), o["what"]))
f = os.path.join(R, "DESIGN.md")
s = open(f).read()
a, b = "<!-- findings -->\n", "<!-- /findings -->"
s = s[:s.index(a) + len(a)] + "\n".join(out) + "\n" + s[s.index(b):]
open(f, "w").write(s)
