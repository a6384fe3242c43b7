#!/usr/bin/env python3
"""mkseed.py SPECFILE...: creates seeded/<id>/ from a spec (python file defining id, property, needs, breaks, edits=[(file,old,new)], demo)
and confirms it: builds /repo with the change, runs the tests, runs the demo with and without.  Leaves /repo as it was."""
import sys, os, subprocess, json, shutil
R = "/verif/seeded"
SH = """#!/bin/bash
# exit 0: behaves as specified.  cwd is the repository, after its build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
gcc -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -I. -Iwdns "$D/demo.c" %s wdns/.libs/libwdns.a -o "$T/demo" || exit 1
cd "$T" && ASAN_OPTIONS=detect_leaks=%d timeout 60 ./demo
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


for spec in sys.argv[1:]:
    g = {"extra": "", "leaks": 0}
    exec(open(spec).read(), g)
    d = "%s/%s" % (R, g["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, a, b in g["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(a) == 1, (g["id"], f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    open(d + "/demo.c", "w").write(g["demo"].lstrip())
    open(d + "/demo.sh", "w").write(SH % (g["extra"], g["leaks"]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=g["property"], needs=g["needs"], what_it_breaks=g["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    t = json.load(open("/tmp/seedtest.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("passed") or base.get("stable") or list(base.values())[0]
    lost = [x for x in names if x not in t["passed"]]
    demo = sh("bash %s/demo.sh" % d, cwd="/repo")
    clean()
    sh("bash /opt/vp/build.sh")
    demo0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    ok = not lost and demo.returncode != 0 and demo0.returncode == 0
    print(g["id"], "OK" if ok else "BAD", "tests lost %d" % len(lost), lost[:3], "demo with bug rc", demo.returncode, "without rc", demo0.returncode)
    if not ok:
        print(r.stderr[-300:] if lost else "", demo.stdout[-300:], demo.stderr[-600:], demo0.stdout[-500:], demo0.stderr[-800:])
