#!/usr/bin/env python3
"""refac.py [ID...]: behaviour-preserving edits on a scratch copy (never in /repo); the checks have to stay quiet.  Prints what they said."""
import sys, os, subprocess, shutil, time, re
E = []


def ref(i, props, *edits):
    E.append((i, props.split(), edits))


exec(open(os.path.dirname(os.path.abspath(__file__)) + "/refacs.txt").read())
want = sys.argv[1:]
for i, props, edits in E:
    if want and i not in want:
        continue
    d = "/tmp/refac/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run("cd /repo && git archive HEAD | tar -x -C " + d, shell=True, check=True)
    for f, a, b in edits:
        s = open(d + "/" + f).read()
        assert s.count(a) >= 1, (i, f, a)
        open(d + "/" + f, "w").write(s.replace(a, b))
    for p in props:
        t = time.time()
        r = subprocess.run(["python3", "/verif/check.py", p, "quick"], capture_output=True, text=True, env=dict(os.environ, WVC_REPO=d, VERIF_SEED="1"))
        out = [l for l in r.stdout.splitlines() if not re.search(r" proved ", l)]
        print("%s %s rc=%d %.0f s" % (i, p, r.returncode, time.time() - t))
        for l in out + r.stderr.splitlines()[-3:]:
            print("    " + l[:260])
        sys.stdout.flush()
    shutil.rmtree(d, ignore_errors=True)
