"""Helpers shared by the contracts: hint templates (proposed loop invariants; the solver decides which hold)."""
import itertools
import z3
from term import *
from mem import *
from engine import Contract, Ctx, NULL, Unsupported, POISON

V = lambda k: z3.BitVecVal(k, 64)
V8 = lambda k: z3.BitVecVal(k, 8)
Z64 = lambda x, w=8: z3.ZeroExt(64 - w, x)


def P_(blk, base=0):
    """positions: offsets (relative to base) of the loop's pointers into blk"""
    return lambda lc: [(v.name, lambda s, v=v: bv(sub(v.t(s), base), 64)) for v in lc.ptrs(blk)]


def PN_(blk, base=0):
    """like P_, also the pointers the loop does not change"""
    def f(lc):
        r = P_(blk, base)(lc)
        seen = []
        for p in lc.inv_ptrs:
            if p.blk is blk and not any(eq(p.off, q) is True for q in seen):
                seen.append(p.off)
                r.append(("=%s" % p.off, lambda s, p=p: bv(sub(p.off, base), 64)))
        return r
    return f


def I_(lc):
    return [(v.name, lambda s, v=v: bv(v.t(s), 64)) for v in lc.ints()]


def I_off(*ks):
    def f(lc):
        r = []
        for n, g in I_(lc):
            r.append((n, g))
            for k in ks:
                r.append(("%s%+d" % (n, k), lambda s, g=g, k=k: g(s) + V(k & M(64))))
        return r
    return f


def C_(*xs):
    return lambda lc: [(str(x)[:20], lambda s, x=x: bv(x, 64)) for x in xs]


def D_(blk, base=0):
    """counts: integers, and distances of pointers into blk from base"""
    return lambda lc: I_(lc) + P_(blk, base)(lc)


def OR_(*sel):
    return lambda lc: [x for f in sel for x in f(lc)]


def tail(name, fn, init, sels, guard=None, extra=()):
    """candidates  fn(init) == fn(current values) for every choice of the loop's variables"""
    def cands(lc):
        out = []
        z = [bv(x, 64) if isc(x) else x for x in init]
        for combo in itertools.product(*[f(lc) for f in sels]):
            nm = "%s(%s)" % (name, ",".join(n for n, _ in combo))

            def f(s, combo=combo):
                a = [g(s) for _, g in combo]
                e = fn(*(z + list(extra))) == fn(*(a + list(extra)))
                if guard is not None:
                    e = z3.Implies(zb(guard(*a)), e)
                return e
            out.append((nm, f))
        return out
    return cands


def vec_cands(lc):
    """representation invariant of the growable byte vectors a loop changes"""
    out = []
    by = {}
    for v in lc.vars:
        if v.key[0] == "cell" and v.key[1].kind == "heap" and v.key[2] in (0, 8, 16, 24, 32):
            by.setdefault(v.key[1], {})[v.key[2]] = v
    for U, f in by.items():
        if 0 in f and f[0].kind == "ptr":
            H = f[0].blk
            nm = U.name
            out.append((nm + ".v", lambda s, f=f: eq(f[0].t(s), 0)))
            if 8 in f and 16 in f:
                out.append((nm + ".p", lambda s, f=f: eq(f[8].t(s), f[16].t(s))))
            if 16 in f and 24 in f:
                out.append((nm + ".n", lambda s, f=f: ule(f[16].t(s), f[24].t(s))))
            if 24 in f:
                out.append((nm + ".cap", lambda s, f=f, H=H: eq(s.size[H], f[24].t(s))))
                out.append((nm + ".cap>0", lambda s, f=f, H=H: land(ule(1, f[24].t(s)), ult(f[24].t(s), 1 << 46))))
    return out


def struct_ptr(c, name, size, cells=(), ptrs=(), kind="arg"):
    """new object of `size` bytes; cells [(off,n,value)], ptrs [(off,Ptr)]"""
    b = c.st.new(name, kind, size)
    for off, n, v in cells:
        c.st.mem[b] = Node(c.st.mem[b], "int", off, n, v)
    for off, p in ptrs:
        c.st.mem[b] = Node(c.st.mem[b], "ptr", off, 8, p)
    return b


def name_arg(c, tag, kind="arg"):
    """a wdns_name_t object with `len` bytes of data behind it; returns (struct blk, data blk, len8)"""
    ln = fresh(tag + "_len", 8)
    dat = c.st.new(tag + "_data", kind, zext(ln, 8, 64))
    b = struct_ptr(c, tag, 16, [(0, 1, ln)], [(8, Ptr(dat, 0))], kind)
    return b, dat, ln


def reader(c, blk, base=0):
    node = c.pre.mem[blk]
    dec = c.E.decide(c.pre)
    return lambda i: bv(read_byte(node, add(base, i), dec), 8)


_keep = []


def shared(c, tag, blk, key, make, semantic=False):
    """specification functions about the same octets (same memory contents, same parameters) are the same functions in every contract"""
    node = c.pre.mem[blk]
    cache = c.E.__dict__.setdefault("speccache", {})
    k = (tag, id(node)) + tuple(x if isc(x) else ("t", x.get_id()) for x in key)
    if k not in cache:
        # the parameters may be equal to earlier ones in this state without being the same terms
        reg = c.E.__dict__.setdefault("specreg", {}).setdefault((tag, id(node)), [])
        if semantic:
            dec = c.E.decide(c.pre)
            for key2, r in reg:
                if dec(land(*[eq(x, y) for x, y in zip(key, key2)])) is True:
                    return r
        _keep.append((node, key))
        cache[k] = make()
        reg.append((key, cache[k]))
    return cache[k]


def induct(c, name, widths, P, hyps, measure, fuel=2, assume=()):
    """prove P(x) for all x by induction: hyps(x) lists (condition, x') with measure(x') < measure(x) under the condition.
    Returns True if proved (the statement may then be instantiated anywhere)."""
    E = c.E
    xs = [fresh("i_" + name, w) for w in widths]
    st = E.__class__ and c.pre.clone()
    st.frames = []
    st.assume(list(assume))
    hs = hyps(*xs)
    for cond, ys in hs:
        E.oblig(st.clone(), "lemma", z3.Implies(cond, z3.ULT(measure(*ys), measure(*xs))), 0, "%s: induction is well founded" % name)
    t = st.clone()
    for cond, ys in hs:
        t.assume(z3.Implies(cond, P(*ys)))
    n0 = len(E.obligs)
    E.oblig(t, "lemma", P(*xs), 0, "%s: by induction" % name)
    return True


def simulation(E, name, base, vs, inv, init, steps, measure, done, insts):
    """two recursive specifications followed in lock step.  vs: state variables; inv(vs): [(label, clause or fn(k))] (fn: for every k);
    init: starting values; steps: [(condition, new values)]; done: [(condition, [(label, goal or fn(k))])]; insts(vs): indices at which the
    quantified clauses are used."""
    from engine import State
    K = fresh("k_" + name, 64)

    def at(cl, ks):
        return [zb(cl(k)) for k in ks] if callable(cl) else [zb(cl)]
    st = State()
    st.assume(list(base))
    for lab, cl in inv(*init):
        for g in at(cl, [K]):
            E.oblig(st.clone(), "lemma", g, 0, "%s: %s holds at the start" % (name, lab))
    h = st.clone()
    ks = [K] + [bv(x, 64) for x in insts(*vs)]
    for lab, cl in inv(*vs):
        h.assume(at(cl, ks))
    E.oblig(h.clone(), "lemma", lor(*([c for c, _ in steps] + [c for c, _ in done])), 0, "%s: some step or the end applies" % name)
    for n, (cond, new) in enumerate(steps):
        t = h.clone()
        t.assume(cond)
        E.oblig(t.clone(), "lemma", z3.ULT(measure(*new), measure(*vs)), 0, "%s: step %d makes progress" % (name, n))
        for lab, cl in inv(*new):
            for g in at(cl, [K]):
                E.oblig(t.clone(), "lemma", g, 0, "%s: %s is kept by step %d" % (name, lab, n))
    for cond, goals in done:
        t = h.clone()
        t.assume(cond)
        for lab, cl in goals:
            for g in at(cl, [K]):
                E.oblig(t.clone(), "lemma", g, 0, "%s: %s at the end" % (name, lab))
