#!/usr/bin/env python3
"""Append a fixed entry:  tools/findings.py fix PROPERTY COMMIT "what failed"  (uses /repo's log for the subject)."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(R, "findings", "known.jsonl")
pid, commit, what = sys.argv[1:4]
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=7", commit]).decode().strip()
e = {"status": "fixed", "property": pid, "commit": h, "what": what, "line": "fixed: property=%s %s %s" % (pid, h, what)}
old = [json.loads(l) for l in open(F)] if os.path.exists(F) else []
if not any(o.get("commit") == h and o.get("property") == pid for o in old):
    with open(F, "a") as f: f.write(json.dumps(e) + "\n")
