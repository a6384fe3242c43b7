#!/usr/bin/env python3
"""Regenerates MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import registry
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in registry.PROPS:
        continue
    p = registry.PROPS[i]
    n = ("every obligation of the contracts of " + ", ".join(p["tasks"]) + " (and of the contracts they call) is discharged by z3 or cvc5 for all inputs and iterations")
    if p.get("bounded"):
        n += "; bounded stand-in (input search against an independent oracle, not proved) for " + ", ".join(p["bounded"])
    if p.get("note"):
        n += "; " + p["note"]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                       technique="contract-based deductive verification of the LLVM IR compiled from /repo (wvc, z3 and cvc5)" + (" + bounded search stand-in" if p.get("bounded") else ""),
                       level=p.get("level", "proof"), level_note=n))
na = [dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no contract written yet for the functions that decide it")) for i in ids if i not in registry.PROPS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="no hooks: /repo is verified as it is; the IR and the search program are rebuilt from /repo's working tree in a scratch directory on every run")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
