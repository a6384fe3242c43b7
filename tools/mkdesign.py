#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md"""
import json, os, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import registry
rows = []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in registry.PROPS:
        q = registry.PROPS[i]
        t = q["tasks"]
        t = ", ".join(t) if len(t) < 25 else ", ".join(t[:8]) + " … (%d contracts)" % len(t)
        rows.append("| %s | contracts of %s%s%s |" % (i, t, "; bounded stand-in: " + ", ".join(q["bounded"]) if q.get("bounded") else "", "; " + q["note"] if q.get("note") else ""))
    else:
        rows.append("| %s | not applicable: %s |" % (i, registry.NOT_APPLICABLE.get(i, "no contract yet")))
s = open(R + "/DESIGN.md").read()
a, b = "| id | decided by |\n|----|-----------|\n", "\n\n## Findings"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n".join(rows) + s[j:]
open(R + "/DESIGN.md", "w").write(s)
