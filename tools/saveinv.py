"""saveinv.py LLDIR [task...]: infer loop invariants afresh and keep them in wvc/inv (they are checked, not trusted, on every run)"""
import sys, os, subprocess, json, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + "/wvc", ROOT + "/wvc/contracts"]
import registry, task
from modules import MODULES
ll = sys.argv[1]
names = sys.argv[2:]
if not names:
    for n, c in task.all_contracts(MODULES).items():
        if not hasattr(c, "lemma_run"):
            names += ["%s#%d" % (n, i) for i in range(registry.SPLIT[n])] if n in registry.SPLIT else [n]
def one(n):
    out = "/tmp/saveinv-%s.json" % n
    subprocess.run(["python3-vt", ROOT + "/wvc/task.py", ll, "-", n, out, "3000"], env=dict(os.environ, WVC_SAVE="1", WVC_NOANNOT="1", OMP_NUM_THREADS="1"))
    r = json.load(open(out)); os.unlink(out)
    ap = ROOT + "/wvc/inv/%s.json" % n
    if r["status"] == "proved" and r["seconds"] < 3 and os.path.exists(ap):
        os.unlink(ap)
    return "%-30s %-10s %6.1f s  %d" % (n, r["status"], r["seconds"], len(r["obligations"]))
with cf.ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, names):
        print(r, flush=True)
