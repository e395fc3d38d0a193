#!/usr/bin/env python3
"""Regenerate MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check %s quick" % i, "thorough_cmd": "python3 bin/check %s thorough" % i,
                       "technique": "TLA+ specification checked with TLC; traces recorded from the real code validated against it" + ("; TLC-generated behaviours replayed into the code" if p.get("gen") else ""),
                       "level": "model_checking", "level_note": p.get("note", "") or "Design level: exhaustive within the constants of the named configurations. Code level: every recorded call of every generated history is checked by TLC against the specification; conclusive for the histories explored (small-scope exhaustive plus seeded random), not for all inputs. Trusts TLC, g++ and the recording library."})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the library is header-only and sequential, so the drivers in /verif/harness record at the return of each public call (or through the library's own visitor interface). /repo carries only fix: commits."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
