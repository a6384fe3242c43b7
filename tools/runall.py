"""runall.py LLDIR [task...]: verify every contract once (development aid)"""
import sys, os, subprocess, json, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + "/wvc", ROOT + "/wvc/contracts"]
import registry, task
from modules import MODULES
ll, names = sys.argv[1], sys.argv[2:]
if not names:
    for n, c in task.all_contracts(MODULES).items():
        names += ["%s#%d" % (n, i) for i in range(registry.SPLIT[n])] if n in registry.SPLIT else [n]
def one(n):
    out = "/tmp/runall-%s.json" % n
    subprocess.run(["python3-vt", ROOT + "/wvc/task.py", ll, "-", n, out, "900"], env=dict(os.environ, OMP_NUM_THREADS="1"))
    r = json.load(open(out)); os.unlink(out)
    bad = [o for o in r.get("obligations", []) if o["status"] != "ok"]
    return "%-30s %-10s %6.1f s  %d%s" % (n, r["status"], r["seconds"], len(r.get("obligations", [])), ("  " + r.get("reason", "")[-200:] + str([(o["func"], o["kind"], o["line"], o["desc"][:80]) for o in bad[:3]])) if r["status"] != "proved" else "")
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, names):
        print(r, flush=True)
