"""Terms: python ints (constants) or z3 bit-vectors; bools or z3 Bools; spec functions; solving."""
import z3, time, subprocess, shutil

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
_ctr = [0]


def fresh(name, w):
    _ctr[0] += 1
    n = "%s!%d" % (name, _ctr[0])
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


def fresh_fn(name, *sorts):
    _ctr[0] += 1
    return z3.Function("%s!%d" % (name, _ctr[0]), *sorts)


def isc(x):
    return isinstance(x, int)        # bool is an int too


def bv(x, w):
    """z3 term of x at width w"""
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def norm(x):
    """constant-fold a z3 term to python where possible"""
    if isinstance(x, int):
        return x
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def simp(x):
    if isinstance(x, int):
        return x
    return norm(z3.simplify(x))


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def M(w):
    return (1 << w) - 1


def add(a, b, w=64):
    if isc(a) and isc(b):
        return (a + b) & M(w)
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isc(a) and isc(b):
        return (a - b) & M(w)
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isc(a) and isc(b):
        return (a * b) & M(w)
    return simp(bv(a, w) * bv(b, w))


def eq(a, b, w=64):
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    return simp(bv(a, w) == bv(b, w))


def ult(a, b, w=64):
    if isc(a) and isc(b):
        return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if isc(a) and isc(b):
        return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))


def slt(a, b, w=64):
    if isc(a) and isc(b):
        return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))


def sle(a, b, w=64):
    if isc(a) and isc(b):
        return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))


def land(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = land(*x)
        if x is True or (not isinstance(x, bool) and z3.is_true(x)):
            continue
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(r)


def lor(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = lor(*x)
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(r)


def lnot(x):
    if isinstance(x, bool):
        return not x
    return simp(z3.Not(x))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b, w=64):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b) and a == b and type(a) == type(b):
        return a
    if w == 1:
        return simp(z3.If(c, zb(a), zb(b)))
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return norm(a)
    return z3.If(c, a, b)


def zext(x, w0, w1):
    if w0 == w1:
        return x
    if isinstance(x, bool):
        return int(x)
    if isc(x):
        return x
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
    return z3.ZeroExt(w1 - w0, x)


def sext(x, w0, w1):
    if w0 == w1:
        return x
    if isinstance(x, bool):
        return M(w1) if x else 0
    if isc(x):
        return sgn(x, w0) & M(w1)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(-1, w1), z3.BitVecVal(0, w1))
    return z3.SignExt(w1 - w0, x)


def trunc(x, w0, w1):
    if w1 == 1:
        if isc(x):
            return bool(x & 1)
        return simp(z3.Extract(0, 0, x) == 1)
    if isc(x):
        return x & M(w1)
    return simp(z3.Extract(w1 - 1, 0, x))


def extract_byte(x, i, n):
    """byte i (little endian) of an n-byte value"""
    if isc(x):
        return (int(x) >> (8 * i)) & 255
    if z3.is_bool(x):
        x = z3.If(x, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    if n == 1:
        return x
    return simp(z3.Extract(8 * i + 7, 8 * i, x))


def concat(bs):
    """bs[0] is least significant byte"""
    if all(isc(b) for b in bs):
        return sum(b << (8 * i) for i, b in enumerate(bs))
    if len(bs) == 1:
        return bs[0]
    return simp(z3.Concat([bv(b, 8) for b in reversed(bs)]))


# ---- spec functions ---------------------------------------------------------
class SpecFn:
    """Uninterpreted function plus a defining equation instantiated on demand at the terms that occur."""
    reg = {}

    def __init__(s, name, sorts, body, fuel=1, lemma=None, once=False):
        _ctr[0] += 1
        s.name = "%s#%d" % (name, _ctr[0])
        s.sorts = sorts
        s.fn = z3.Function(s.name, *sorts)
        s.body, s.lemma, s.once = body, lemma, once      # once: terms that an unfolding introduces are not unfolded again
        SpecFn.reg[s.name] = s

    def __call__(s, *args):
        a = []
        for x, so in zip(args, s.sorts):
            a.append(bv(x, so.size()) if not z3.is_expr(x) and z3.is_bv_sort(so) else (zb(x) if isinstance(x, bool) else x))
        return s.fn(*a)

    def axioms(s, app):
        args = [app.arg(i) for i in range(app.num_args())]
        out = []
        if s.body is not None:
            b = s.body(*args)
            if b is not None:
                if isinstance(b, int):
                    b = zb(b) if isinstance(b, bool) else bv(b, s.sorts[-1].size())
                out.append(app == b)
        if s.lemma is not None:
            out += [x for x in s.lemma(app, *args) if x is not True]
        return out


def collect_apps(es, seen, out):
    st = list(es)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        seen_keep.append(e)
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                sf = SpecFn.reg.get(d.name())
                if sf is not None:
                    out.append((sf, e))
            st.extend(e.children())


seen_keep = []
RL = 8000
import os, threading
DUMP, DUMPT = os.environ.get("WVC_DUMP"), float(os.environ.get("WVC_DUMPT", "2"))
STATS = dict(queries=0, time=0.0, unsat=0, sat=0, unknown=0, slow=[])


def expand(es, fuel):
    seen, out = set(), []
    del seen_keep[:]
    es = list(es)
    frontier = es
    for rnd in range(fuel):
        apps = []
        collect_apps(frontier, seen, apps)
        if not apps:
            break
        frontier = []
        for sf, a in apps:
            if rnd == 0 or not sf.once:
                frontier += sf.axioms(a)
        out += frontier
    return out


_ss = {}


def specset(e):
    """names of the spec functions that occur in e"""
    if not z3.is_expr(e):
        return frozenset()
    k = e.get_id()
    if k in _ss:
        return _ss[k][1]
    seen, st, out = set(), [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and d.name() in SpecFn.reg:
                out.add(d.name())
            st.extend(x.children())
    r = frozenset(out)
    _ss[k] = (e, r)
    return r


def prove_groups(asm, goals, timeout_ms, fuel, tag):
    """goals that follow already from the assumptions talking about the same spec functions; returns those still open"""
    groups = {}
    for g in goals:
        groups.setdefault(specset(zb(g)), []).append(g)
    openg = []
    for fs, gs in groups.items():
        a = [x for x in asm if specset(zb(x) if isinstance(x, bool) else x) <= fs]
        r, _ = solve(a + [z3.Not(zb(land(*gs)))], timeout_ms, fuel=fuel, tag=tag)
        if r != "unsat":
            openg += gs
    return openg


def _pre():
    return z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()


CVC5 = shutil.which("cvc5") or "/usr/bin/cvc5"


class _Second:
    """second back end, run concurrently: cvc5 with bit-vectors translated to integers (exactly, with the wrap-around spelled out).
    Both back ends have deterministic resource limits; either verdict counts, so the outcome does not depend on which is faster."""

    def __init__(s, sol, ms):
        s.p, s.res, s.inz3, s.lock = None, None, False, threading.Lock()
        txt = "(set-logic ALL)\n" + sol.to_smt2()
        if len(txt) > 3000000:
            return
        try:
            s.p = subprocess.Popen([CVC5, "--solve-bv-as-int=sum", "--rlimit=%d" % (ms * 50), "--tlimit=%d" % (ms * 10 + 1000), "--lang=smt2", "-"],
                                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        except OSError:
            return
        s.th = threading.Thread(target=s.run, args=(txt,), daemon=True)
        s.th.start()

    def run(s, txt):
        try:
            out = s.p.communicate(txt.encode())[0].decode().split()
        except (OSError, ValueError):
            return
        s.res = out[0] if out and out[0] in ("sat", "unsat") else "unknown"
        with s.lock:
            if s.res == "unsat" and s.inz3:
                z3.main_ctx().interrupt()

    def begin(s):
        with s.lock:
            if s.res == "unsat":
                return False
            s.inz3 = True
            return True

    def end(s):
        with s.lock:
            s.inz3 = False

    def wait(s):
        if s.p is None:
            return "unknown"
        s.th.join()
        return s.res or "unknown"

    def stop(s):
        if s.p is not None:
            try:
                s.p.kill()
            except OSError:
                pass
            s.th.join()


def _uf():
    return z3.Tactic("qfufbv").solver()


def solve(assertions, timeout_ms=10000, fuel=2, want_model=False, tag=""):
    """check satisfiability; returns ('unsat'|'sat'|'unknown', model)"""
    es = []
    for a in assertions:
        if a is True:
            continue
        if a is False:
            return "unsat", None
        es.append(a)
    es = es + expand(es, fuel)
    t = time.time()
    r = None
    s = None
    sec = None
    for mk, ms in ((_pre, min(timeout_ms, 300)), (_pre, timeout_ms), (_uf, timeout_ms)):
        s = mk()
        s.set("rlimit", int(ms) * RL)          # deterministic limit: the result must not depend on machine load
        s.set("timeout", int(ms) * 10 + 1000)  # safety net only
        s.add(es)
        if sec is not None and not sec.begin():
            break
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if sec is not None:
            sec.end()
        if r != z3.unknown:
            break
        if sec is None:
            if timeout_ms <= 300:
                break
            sec = _Second(s, timeout_ms)
        elif sec.res == "unsat":
            break
    if sec is not None:
        if r == z3.unknown or r is None:
            x = sec.wait()
            if x == "unsat" or (x == "sat" and not want_model):
                r = z3.unsat if x == "unsat" else z3.sat
                STATS["cvc5"] = STATS.get("cvc5", 0) + 1
            else:
                r = z3.unknown
        else:
            sec.stop()
    dt = time.time() - t
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS[str(r)] += 1
    bt = STATS.setdefault("bytag", {}).setdefault(tag, [0, 0.0])
    bt[0] += 1
    bt[1] += dt
    if DUMP and dt > DUMPT:
        open("%s/q%03d_%s_%.1f.smt2" % (DUMP, STATS["queries"], r, dt), "w").write(s.to_smt2())
    if dt > 2:
        STATS["slow"].append((round(dt, 1), str(r), tag))
    if r == z3.sat:
        return "sat", (s.model() if want_model else None)
    return str(r), None
