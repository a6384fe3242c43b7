"""Verify one function against its contract; result as JSON.  usage: task.py LLDIR module contract OUT deadline_s"""
import sys, os, json, time, glob, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, HERE + "/contracts"]
import resource
resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
sys.setrecursionlimit(20000)
import ir, engine, loops, term


def load(d):
    return ir.Program({os.path.basename(x)[:-3]: x for x in glob.glob(d + "/*.ll")})


def all_contracts(mods):
    C = {}
    for m in mods:
        for c in importlib.import_module(m).CONTRACTS:
            c.module = m
            C[c.name] = c
    return C


def find_func(P, name):
    f = P.func(name)
    if f is None:
        fs = [m.funcs[name] for m in P.mods.values() if name in m.funcs]
        f = fs[0] if fs else None
    return f


def run(lldir, mod, name, deadline):
    t = time.time()
    res = dict(module=mod, contract=name, status="error", reason="", obligations=[], used=[], inlined=[], assumed=[], loops={}, loc=0)
    E = None
    try:
        P = load(lldir)
        from modules import MODULES
        C = all_contracts(MODULES)
        only = None
        full, name = name, name.split("#")[0]
        if "#" in full:
            only = int(full.split("#")[1])
        c = C[name]
        res["doc"] = (c.__doc__ or "").strip()
        if hasattr(c, "lemma_run"):
            E = engine.Eng(P, {}, deadline=time.time() + deadline)
            E.under = name
            c.lemma_run(E, C)
            bad = [o for o in E.obligs if o.status != "ok"]
            res["status"] = "proved" if not bad else "failed"
        else:
            f = find_func(P, getattr(c, "fname", None) or c.name)
            if f is None:
                res["status"], res["reason"] = "missing", "function not found in the current sources"
            else:
                E = engine.Eng(P, {k: v for k, v in C.items() if not hasattr(v, "lemma_run") and k not in getattr(c, "inline", ())
                                   and getattr(v, "fname", None) is None}, deadline=time.time() + deadline)
                E.only = only
                ap = HERE + "/inv/%s.json" % full
                bad, r = [1], None
                if os.path.exists(ap) and not os.environ.get("WVC_NOANNOT"):
                    # loop invariants found earlier: tried first, checked like any other; if they do not carry the proof, infer anew
                    E.annot = json.load(open(ap))
                    E.trust = True
                    try:
                        r = E.verify(c, f)
                        bad = [o for o in E.obligs if o.status != "ok"]
                    except engine.Unsupported:
                        bad = [1]
                    res["annotated"] = not bad
                if bad:
                    E0 = E
                    E = engine.Eng(P, E0.contracts, deadline=E0.deadline)
                    E.only = only
                    r = E.verify(c, f)
                    bad = [o for o in E.obligs if o.status != "ok"]
                if os.environ.get("WVC_SAVE") and not bad and E.annot_new:
                    os.makedirs(HERE + "/inv", exist_ok=True)
                    json.dump(E.annot_new, open(ap, "w"), indent=0, sort_keys=True)
                res["paths"] = E.npaths
                res["returns"] = len(r)
                res["status"] = "proved" if not bad else "failed"
                res["file"] = f.mod.name
    except engine.Budget as e:
        res["status"], res["reason"] = "timeout", str(e)
    except engine.Unsupported as e:
        res["status"], res["reason"] = "unsupported", str(e)
    except MemoryError:
        res["status"], res["reason"] = "timeout", "memory limit"
    except Exception as e:
        res["status"], res["reason"] = "unsupported", "%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])
    if E is not None:
        res["obligations"] = [dict(func=o.func, kind=o.kind, line=o.line, status=o.status, desc=o.desc, t=round(o.time, 3),
                                   **({"model": o.model} if o.model else {})) for o in E.obligs]
        res["used"] = sorted(E.used_contracts)
        res["inlined"] = sorted(E.inlined)
        res["assumed"] = sorted(E.assumed)
        res["loops"] = {k: [len(x) for x in v.get("inv", [])] for k, v in E.loopinfo.items()}
    res["seconds"] = round(time.time() - t, 2)
    res["queries"] = term.STATS["queries"]
    res["solver_s"] = round(term.STATS["time"], 2)
    return res


if __name__ == "__main__":
    d, mod, name, out, dl = sys.argv[1:6]
    r = run(d, mod, name, float(dl))
    tmp = out + ".tmp"
    json.dump(r, open(tmp, "w"))
    os.rename(tmp, out)
