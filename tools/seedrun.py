#!/usr/bin/env python3
"""seedrun.py [-o] ID...: applies each seeded change to /repo, runs the check of its property, undoes it; prints what the check said.
(A development aid; no registered command runs it.)"""
import sys, subprocess, json, time


def sh(c):
    return subprocess.run(c, shell=True, capture_output=True, text=True)


for i in sys.argv[1:]:
    p = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    sh("git -C /repo checkout -- .")
    assert sh("git -C /repo apply /verif/seeded/%s/patch.diff" % i).returncode == 0, i
    t = time.time()
    r = sh("cd /verif && VERIF_TIER=quick VERIF_SEED=1 python3 check.py %s quick" % p)
    sh("git -C /repo checkout -- .")
    print(i, p, "rc", r.returncode, "%.0fs" % (time.time() - t), [l for l in (r.stdout + r.stderr).split("\n") if "VIOLATION" in l or "Traceback" in l][:3], flush=True)
