#!/usr/bin/env python3
"""replay.py PROP TEST IDX SEED: rebuild the search program from /repo and run one case."""
import os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT + "/wvc"]
import build
t = tempfile.mkdtemp(prefix="wvc-replay-")
try:
    build.gen_sources(t)
    open(t + "/sources.txt", "w").write("".join("%s %s\n" % x for x in build.lib_sources(t)))
    if subprocess.run(["bash", ROOT + "/refute/build.sh", t]).returncode:
        sys.exit(2)
    sys.exit(1 if subprocess.run([t + "/refuter", "replay"] + sys.argv[1:5]).returncode else 0)
finally:
    shutil.rmtree(t, ignore_errors=True)
