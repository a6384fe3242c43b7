#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current source: every contract the property rests on is verified by wvc (deductive,
function by function, from LLVM IR compiled just now from /repo); a bounded search on the real code (refuter) looks for a
concrete failing input.  Exit 0: every obligation accepted (or, where the verifier could not reach a changed function, the
bounded stand-in found nothing).  Exit 1: VIOLATION line."""
import sys, os, json, time, subprocess, tempfile, shutil, signal
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [ROOT, ROOT + "/wvc", ROOT + "/wvc/contracts"]
import build, registry

VT = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
T0 = time.time()
PARTS = {}


def mark(k):
    PARTS[k] = round(time.time() - T0, 1)


class Refuter:
    def __init__(s, out, seed):
        s.out, s.seed, s.proc, s.built = out, seed, None, None
        s.bproc = subprocess.Popen(["bash", ROOT + "/refute/build.sh", out], stdout=open(out + "/rbuild.log", "w"), stderr=subprocess.STDOUT,
                                   start_new_session=True)

    def ready(s):
        if s.built is None:
            r = s.bproc.poll()
            if r is None:
                return False
            s.built = r == 0 and os.path.exists(s.out + "/refuter")
        return True

    def wait(s):
        s.bproc.wait()
        s.ready()
        return s.built

    def start(s, prop, secs, workers, tag, seed):
        s.logdir = "%s/rlog-%s" % (s.out, tag)
        os.makedirs(s.logdir, exist_ok=True)
        s.outf = s.logdir + "/out"
        s.proc = subprocess.Popen([s.out + "/refuter", "run", prop, str(seed), str(secs), str(workers), s.logdir],
                                  stdout=open(s.outf, "w"), stderr=subprocess.STDOUT, start_new_session=True)
        s.limit = time.time() + secs * 3 + 60

    def poll(s):
        """None while running, else (bad|None, summary)"""
        r = s.proc.poll()
        if r is None:
            if time.time() > s.limit:
                os.killpg(s.proc.pid, signal.SIGKILL)
                return (None, "stopped")
            return None
        txt = open(s.outf, errors="replace").read()
        bad = [l for l in txt.splitlines() if l.startswith("BAD ")]
        summ = [l for l in txt.splitlines() if l.startswith("CASES ")]
        return (bad[0] if bad else None, summ[-1] if summ else txt[-300:])


class Tasks:
    def __init__(s, lldir, names, nproc, deadline, tmp):
        import importlib
        from modules import MODULES
        s.lldir, s.np, s.deadline, s.tmp = lldir, nproc, deadline, tmp
        s.queue, s.run, s.done, s.seen, s.n = [], {}, {}, set(), 0
        for n in names:
            s.add(n)

    def add(s, n):
        if n in registry.SPLIT:
            for i in range(registry.SPLIT[n]):
                s.add("%s#%d" % (n, i))
        elif n not in s.seen:
            s.seen.add(n)
            s.queue.append(n)

    def step(s):
        for n, (p, out, t) in list(s.run.items()):
            r = p.poll()
            if r is None:
                if time.time() > s.deadline + 20:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    r = -1
                else:
                    continue
            del s.run[n]
            try:
                res = json.load(open(out))
            except Exception:
                res = dict(contract=n, status="timeout", reason="verifier process ended (%s): %s" % (r, open(out + ".err", errors="replace").read()[-500:]),
                           obligations=[], used=[], inlined=[], assumed=[], loops={}, seconds=round(time.time() - t, 1), queries=0, solver_s=0)
            s.done[n] = res
            for u in res["used"]:
                s.add(u)          # a caller is checked against the callee's contract: the callee is checked in the same run
        while s.queue and len(s.run) < s.np:
            n = s.queue.pop(0)
            s.n += 1
            out = "%s/task-%d.json" % (s.tmp, s.n)
            left = max(5, s.deadline - time.time())
            e = open(out + ".err", "w")
            s.run[n] = (subprocess.Popen([VT, ROOT + "/wvc/task.py", s.lldir, "-", n, out, str(left)], stdout=e, stderr=e, start_new_session=True,
                                         env=dict(os.environ, OMP_NUM_THREADS="1")), out, time.time())
        return bool(s.run or s.queue)

    def kill(s):
        for n, (p, out, t) in s.run.items():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = registry.PROPS[prop]
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    replay = "%s/evidence/replay-%s.txt" % (ROOT, prop)
    if os.path.exists(replay):
        os.unlink(replay)
    tmp = tempfile.mkdtemp(prefix="wvc-%s-" % prop)
    os.makedirs(tmp + "/ll"), os.makedirs(tmp + "/r")
    tasks = ref = None
    try:
        for d in ("/ll", "/r"):
            build.gen_sources(tmp + d)
        open(tmp + "/r/sources.txt", "w").write("".join("%s %s\n" % x for x in build.lib_sources(tmp + "/r")))
        ref = Refuter(tmp + "/r", seed)
        build.build_all(tmp + "/ll")
        mark("ir_built")
        quick = tier == "quick"
        rsecs = spec.get("search_s", 25) if quick else 300
        deadline = T0 + (560 if quick else 3600)
        tasks = Tasks(tmp + "/ll", spec["tasks"], 7, deadline, tmp)
        more = tasks.step()
        state, bad, summaries = "building", None, []
        while True:
            more = tasks.step()
            if state == "building" and ref.ready():
                if not ref.built:
                    state = "nobuild"
                else:
                    ref.start(prop, rsecs, 4, "1", seed)
                    state = "searching"
                    mark("search_started")
            elif state == "searching":
                r = ref.poll()
                if r is not None:
                    bad, summ = r
                    summaries.append(summ)
                    state = "searched"
                    mark("search_done")
                    if bad:
                        break
            if state in ("searched", "nobuild") and not more:
                break
            time.sleep(0.05)
        mark("proof_done")
        failed = []
        if not bad:
            for n, r in tasks.done.items():
                if r["status"] == "failed":
                    failed.append(n)
            if failed and ref.built:
                # the verifier rejects an obligation: look harder for an input that shows it
                ref.start(prop, 90 if quick else 600, 8, "2", seed + 7919)
                while True:
                    r = ref.poll()
                    if r is not None:
                        bad, summ = r
                        summaries.append(summ)
                        break
                    time.sleep(0.1)
                mark("second_search_done")
        viol = 0
        if bad or failed:
            viol = 1
            write_replay(replay, prop, bad, failed, tasks.done, ref, tmp)
        if not ref.built and not failed:
            sys.stderr.write("the search program did not build:\n" + open(tmp + "/r/rbuild.log").read()[-3000:])
        evidence(prop, tier, seed, spec, tasks.done, summaries, viol, ref.built, failed, bad)
        for l in open(ROOT + "/known_findings.txt") if os.path.exists(ROOT + "/known_findings.txt") else []:
            if l.startswith("open: property=%s " % prop):
                print("KNOWN-FINDING: " + l[6:].strip())
        report(prop, tasks.done, summaries, spec)
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        if failed:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
            return 1
        if not ref.built:
            return 2
        if all(r["status"] != "proved" for r in tasks.done.values()) and not ref.built:
            return 2
        return 0
    finally:
        if tasks:
            tasks.kill()
        if ref:
            for p in (ref.bproc, ref.proc):
                if p is not None and p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
        shutil.rmtree(tmp, ignore_errors=True)


def write_replay(path, prop, bad, failed, done, ref, tmp):
    with open(path, "w") as f:
        f.write("property: %s\n" % prop)
        if bad:
            w = bad.split()
            f.write("failing input found on the real code: %s\n" % bad)
            f.write("replay: python3 %s/replay.py %s %s %s %s\n" % (ROOT, prop, w[1], w[2], w[3]))
            lg = [x[4:] for x in w if x.startswith("log=")]
            if lg and os.path.exists(lg[0]):
                f.write("---- output of the failing case ----\n" + open(lg[0], errors="replace").read()[:20000] + "\n")
        for n in failed:
            for o in done[n]["obligations"]:
                if o["status"] != "ok":
                    f.write("obligation not discharged (%s): function %s, contract %s, kind %s, line %s: %s\n" %
                            (o["status"], o["func"], n, o["kind"], o["line"], o["desc"]))
                    if o.get("model"):
                        f.write("  verifier model: %s\n" % o["model"][:3000])
        if failed and not bad:
            f.write("no failing input was found for these obligations\n")


def report(prop, done, summaries, spec):
    for n, r in sorted(done.items()):
        ob = r["obligations"]
        ok = sum(o["status"] == "ok" for o in ob)
        print("%-28s %-12s %d/%d obligations  %.1f s (solver %.1f s) %s" % (n, r["status"], ok, len(ob), r.get("seconds", 0), r.get("solver_s", 0),
                                                                          r["reason"].strip().splitlines()[-1][:150] if r.get("reason") else ""))
        for o in ob:
            if o["status"] != "ok":
                print("    %s: %s %s line %s: %s" % (o["status"], o["func"], o["kind"], o["line"], o["desc"]))
    for s in summaries:
        print("search:", s[:300])


def evidence(prop, tier, seed, spec, done, summaries, viol, built, failed, bad):
    tot = sum(len(r["obligations"]) for r in done.values())
    ok = sum(o["status"] == "ok" for r in done.values() for o in r["obligations"])
    proved = sorted(n for n, r in done.items() if r["status"] == "proved")
    und = {n: "%s: %s" % (r["status"], r.get("reason", "").strip()[-300:]) for n, r in done.items() if r["status"] not in ("proved", "failed")}
    assumed = sorted({a for r in done.values() for a in r["assumed"]})
    level = spec.get("level", "proof")
    asm = list(registry_assumptions()) + ["trusted model of the C library / compiler intrinsic %s" % a for a in assumed]
    asm += spec.get("assumptions", [])
    for n, why in und.items():
        asm.append("NOT PROVED in this run: contract %s (%s); only the bounded search stands in for it" % (n, why.replace("\n", " ")[:200]))
    for b in spec.get("bounded", []):
        asm.append("bounded, not proved: %s (input search against an independent oracle)" % b)
    cov = dict(obligations=tot, discharged=ok,
               checker_cmd="python3 check.py %s %s" % (prop, tier),
               backend="z3 %s (bit-vectors with uninterpreted functions); cvc5 1.1.2 concurrently on the harder ones (either verdict of unsatisfiability discharges)" % z3ver(),
               trusted_base=["clang 18 front end and the opt passes " + build.OPTPASSES + " (C to LLVM IR)",
                             "the verification condition generator /verif/wvc/*.py", "z3 and cvc5",
                             "the contracts in /verif/wvc/contracts as the meaning of the property",
                             "the models of C library functions in /verif/wvc/externs.py"],
               queries=sum(r["queries"] for r in done.values()), solver_s=round(sum(r["solver_s"] for r in done.values()), 1))
    cov["functions_under_contract"] = [dict(contract=n, status=done[n]["status"], obligations=len(done[n]["obligations"]),
                                            discharged=sum(o["status"] == "ok" for o in done[n]["obligations"]),
                                            inlined=done[n]["inlined"], callee_contracts=done[n]["used"], loops=done[n]["loops"],
                                            paths=done[n].get("paths", 0), queries=done[n]["queries"], solver_s=done[n]["solver_s"], wall_s=done[n]["seconds"],
                                            obligations_by_kind=kinds(done[n]["obligations"])) for n in sorted(done)]
    cov["proved_functions"] = proved
    cov["bounded_standins"] = spec.get("bounded", []) + sorted(und)
    cov["bounded_search"] = dict(summary=summaries, bound="pseudo-random inputs from VERIF_SEED for a fixed time; labelled bounded, never counted as proved")
    cov["phases_s"] = PARTS
    if level == "other":
        cov["explanation"] = spec["explanation"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=asm, wall_s=round(time.time() - T0, 2), violations=viol)
    json.dump(ev, open("%s/evidence/%s.json" % (ROOT, prop), "w"), indent=1)


def kinds(ob):
    d = {}
    for o in ob:
        d[o["kind"]] = d.get(o["kind"], 0) + 1
    return d


def z3ver():
    try:
        return subprocess.run([VT, "-c", "import z3;print(z3.get_version_string())"], capture_output=True, text=True).stdout.strip()
    except Exception:
        return "?"


def registry_assumptions():
    return registry.COMMON_ASSUMPTIONS


if __name__ == "__main__":
    sys.exit(main())
