"""Loop cut: havoc, candidate invariants (Houdini), region layers, termination measures."""
import z3, itertools, time, re, os
from term import *
from mem import *
import ir
import engine
from engine import Eng, Ptr, POISON, Oblig, DEBUG, Unsupported


class Var:
    __slots__ = ("kind", "key", "w", "blk", "get", "init", "name", "gen")

    def __init__(s, kind, key, w, blk, get, init, name):
        s.kind, s.key, s.w, s.blk, s.get, s.init, s.name = kind, key, w, blk, get, init, name

    def t(s, st):
        """64-bit term of this variable in state st"""
        v = s.get(st)
        if s.kind == "ptr":
            return v.off if isinstance(v, Ptr) else None
        return zext(v, s.w, 64)

    def t0(s):
        if s.init is None:
            return None
        if s.kind == "ptr":
            return s.init.off
        return zext(s.init, s.w, 64)


class Cand:
    __slots__ = ("f", "name", "alive", "off")

    def __init__(s, name, f):
        s.name, s.f, s.alive, s.off = name, f, True, False

    def __repr__(s):
        return s.name


FORCE = os.environ.get("WVC_FORCE")      # development aid: take all candidates but those matching, so that the final pass shows what fails


def norm(n):
    return re.sub(r"!\d+", "", n)


def inst(E, c, hs, lc=None):
    """the invariant clause in state hs as assumptions: as it is, and, because it holds for every value of the free index K,
    also at the index terms the contract asks for"""
    e = c.f(hs)
    if e is True:
        return []
    e = zb(e)
    out = [e]
    kf = (E.hints or {}).get("kinst")
    if kf is not None and lc is not None:
        for t in kf(lc, hs):
            out.append(z3.substitute(e, (E.K, bv(t, 64))))
    return [x for i, x in enumerate(out) if i == 0 or not x.eq(e)]


class Mods:
    def __init__(s):
        s.cells = {}      # blk -> {(off,n): kind}
        s.regions = set()
        s.sizes = set()

    def sig(s):
        return (tuple(sorted((b.id, tuple(sorted(c.items()))) for b, c in s.cells.items())), tuple(sorted(b.id for b in s.regions)), tuple(sorted(b.id for b in s.sizes)))


def shape_of(vals, gen):
    out = []
    for v in vals:
        if isinstance(v, Ptr):
            if v.blk is None:
                out.append(("null",))
            else:
                out.append((v.blk, 0 if v.blk is POISON or v.gen == gen[v.blk] else "stale"))
        else:
            out.append(v.name if not isc(v) and hasattr(v, "name") and not z3.is_expr(v) else None)
    return tuple(out)


def diff_mods(E, b, hs, mods, own):
    """add to mods what b changed relative to hs; returns True if something new"""
    ch = False
    for blk, node in b.mem.items():
        base = hs.mem.get(blk)
        if base is None:
            if b.live.get(blk) == "live" and blk.kind in ("heap",):
                raise Unsupported("allocation survives a loop iteration (%s)" % blk)
            continue
        if b.live[blk] != hs.live[blk]:
            if hs.live[blk] == "live" and b.live[blk] == "dead":
                continue
            raise Unsupported("object released inside a loop (%s)" % blk)
        sb, sh = b.size[blk], hs.size[blk]
        if b.gen[blk] != hs.gen[blk] or not (sb is sh or (isc(sb) and isc(sh) and sb == sh) or (not isc(sb) and not isc(sh) and sb.eq(sh))):
            if blk not in mods.sizes:
                mods.sizes.add(blk)
                ch = True
        nd = node
        while nd is not base:
            if nd is None:
                if blk not in mods.regions:
                    mods.regions.add(blk)
                    ch = True
                break
            if nd.k in ("int", "ptr") and isc(nd.off):
                c = mods.cells.setdefault(blk, {})
                k = (nd.off, nd.n)
                ov = [x for x in c if x != k and x[0] < k[0] + k[1] and k[0] < x[0] + x[1]]
                if ov:
                    # merge overlapping integer cells bytewise
                    if nd.k == "ptr" or any(c[x] == "ptr" for x in ov):
                        raise Unsupported("overlapping pointer cell modified in loop")
                    lo = min([k[0]] + [x[0] for x in ov])
                    hi = max([k[0] + k[1]] + [x[0] + x[1] for x in ov])
                    if (lo, hi - lo) not in c:
                        for x in ov:
                            del c[x]
                        c[(lo, hi - lo)] = "int"
                        ch = True
                elif k not in c:
                    c[k] = nd.k
                    ch = True
                elif c[k] != nd.k:
                    if c[k] == "int" and nd.k == "ptr":
                        c[k] = "ptr"
                        ch = True
            else:
                if blk not in mods.regions:
                    mods.regions.add(blk)
                    ch = True
            nd = nd.prev
    return ch


def process_loop(E, st, f, h, body, pkey):
    t_start = time.time()
    depth = st.frames[-1].depth
    E0 = st.clone()
    E.enter(E0)
    phis = [(p.dst, p.ty) for p in f.blocks[h].phis]
    nm = "%s@%s" % (f.name, min([i.line for bb in body for i in f.blocks[bb].instrs if i.line] or [0]))
    mods = Mods()
    dead = {}
    ctx = (depth, h, body)

    def phi_get(n):
        return lambda s: s.frames[depth].env[n]

    def cell_get(blk, off, n, kind):
        if kind == "ptr":
            return lambda s: E.rdp(s, Ptr(blk, off))
        return lambda s: read_int(s.mem[blk], off, n, E.decide(s))

    def ptr_slots():
        sl = [("phi", n) for n, ty in phis if ty.k == "ptr"]
        for blk in sorted(mods.cells, key=lambda b: b.id):
            for (off, n), k in sorted(mods.cells[blk].items()):
                if k == "ptr":
                    sl.append(("cell", blk, off))
        return sl

    def slot_val(s, sl):
        if sl[0] == "phi":
            return s.frames[depth].env[sl[1]]
        if dead_slot(sl):
            return Ptr(POISON, 0)
        return E.rdp(s, Ptr(sl[1], sl[2]))

    def dead_slot(sl):
        """a local pointer variable that holds nothing yet when the loop is entered: forgotten at every iteration"""
        if sl[1].kind != "stack":
            return False
        if sl not in dead:
            try:
                E.rdp(E0, Ptr(sl[1], sl[2]))
                dead[sl] = False
            except Unsupported:
                dead[sl] = True
        return dead[sl]

    def shape(s):
        return shape_of([slot_val(s, x) for x in ptr_slots()], s.gen)

    def havoc(shp, regions):
        """state at loop head: everything modified is arbitrary"""
        hs = E0.clone()
        fr = hs.frames[depth]
        slots = ptr_slots()
        sv = dict(zip(slots, shp))
        for n, ty in phis:
            if ty.k == "ptr":
                x = sv[("phi", n)]
                fr.env[n] = mkptr(x, n)
            else:
                fr.env[n] = fresh(n, ty.w)
        for blk in sorted(mods.regions, key=lambda b: b.id):
            g = fresh_fn("lp_" + blk.name, BV64, BV8)
            hs.mem[blk] = Node(hs.mem[blk], "layer", None, None, lambda i, g=g: g(bv(i, 64)), lambda i: True, "loop")
        for blk in sorted(mods.sizes, key=lambda b: b.id):
            nz = fresh("sz_" + blk.name, 64)
            hs.size[blk] = nz
            hs.gen[blk] = hs.gen[blk] + 1
            hs.assume(z3.ULT(nz, 1 << 48))
        for blk in sorted(mods.cells, key=lambda b: b.id):
            for (off, n), k in sorted(mods.cells[blk].items()):
                if k == "ptr":
                    hs.mem[blk] = Node(hs.mem[blk], "ptr", off, 8, mkptr(sv[("cell", blk, off)], "%s_%d" % (blk.name, off)))
                else:
                    hs.mem[blk] = Node(hs.mem[blk], "int", off, n, fresh("%s_%d" % (blk.name, off), 8 * n))
        return hs

    def mkptr(x, name):
        if x == ("null",):
            return NULL
        blk, gen = x
        if blk is POISON:
            return Ptr(POISON, 0)
        return Ptr(blk, fresh("o_" + name, 64), "cur" if gen == 0 else -1)

    def fixgen(hs):
        """generation tags of pointers created by havoc for resized blocks"""
        for n, ty in phis:
            v = hs.frames[depth].env[n]
            if isinstance(v, Ptr) and v.gen == "cur":
                hs.frames[depth].env[n] = Ptr(v.blk, v.off, hs.gen[v.blk])
        for blk in mods.cells:
            for (off, n), k in mods.cells[blk].items():
                if k == "ptr":
                    v = read_ptr(hs.mem[blk], off)
                    if isinstance(v, Ptr) and v.gen == "cur":
                        hs.mem[blk] = Node(hs.mem[blk], "ptr", off, 8, Ptr(v.blk, v.off, hs.gen[v.blk]))

    def mkvars(shp):
        vs = []
        sv = dict(zip(ptr_slots(), shp))
        e0shape = shape(E0)
        same = dict(zip(ptr_slots(), e0shape))
        for n, ty in phis:
            init = E0.frames[depth].env[n]
            if ty.k == "ptr":
                x = sv[("phi", n)]
                if x == ("null",) or x[0] is POISON:
                    continue
                ok = isinstance(init, Ptr) and init.blk is x[0]
                vs.append(Var("ptr", ("phi", n), 64, x[0], phi_get(n), init if ok else None, n))
            elif ty.w > 1:
                vs.append(Var("int", ("phi", n), ty.w, None, phi_get(n), init, n))
        for blk in sorted(mods.cells, key=lambda b: b.id):
            for (off, n), k in sorted(mods.cells[blk].items()):
                g = cell_get(blk, off, n, k)
                try:
                    init = g(E0)
                except Unsupported:
                    init = None
                if k == "ptr":
                    x = sv[("cell", blk, off)]
                    if x == ("null",) or x[0] is POISON:
                        continue
                    ok = isinstance(init, Ptr) and init.blk is x[0]
                    vs.append(Var("ptr", ("cell", blk, off), 64, x[0], g, init if ok else None, "%s[%d]" % (blk.name, off)))
                elif n <= 8:
                    if isinstance(init, Ptr):
                        init = None
                    vs.append(Var("int", ("cell", blk, off), 8 * n, None, g, init, "%s[%d]" % (blk.name, off)))
        for blk in sorted(mods.sizes, key=lambda b: b.id):
            vs.append(Var("int", ("size", blk), 64, None, lambda s, blk=blk: s.size[blk], E0.size[blk], "size(%s)" % blk.name))
        return vs

    # loop-invariant terms usable as bounds
    used = set()
    consts = set()
    for bb in body:
        for i in f.blocks[bb].instrs:
            for a in i.args or []:
                x = a[1] if isinstance(a, tuple) else a
                if isinstance(x, ir.Local):
                    used.add(x.name)
            if i.op == "icmp":
                for a in i.args:
                    if isinstance(a, ir.Const) and a.k == "int" and i.ty.k == "int":
                        for d in (-1, 0, 1):
                            consts.add((a.v + d) & M(64))
            if i.op == "getelementptr":
                for _, a in i.x:
                    if isinstance(a, ir.Local):
                        used.add(a.name)
    env0 = E0.frames[depth].env
    phin = {n for n, _ in phis}
    inv_ints, inv_ptrs = [], []

    def add_term(lst, t):
        for x in lst:
            if (isc(x) and isc(t) and x == t) or (not isc(x) and not isc(t) and x.eq(t)):
                return
        lst.append(t)
    for n in sorted(used - phin):
        if n in env0:
            v = env0[n]
            if isinstance(v, Ptr):
                if v.blk is not None and v.blk is not POISON:
                    inv_ptrs.append(v)
            elif not isinstance(v, bool) and not (z3.is_expr(v) and z3.is_bool(v)) and v is not None and not isinstance(v, engine.FnPtr):
                w = 64 if isc(v) else v.size()
                if isc(v):
                    add_term(inv_ints, v)
                else:
                    add_term(inv_ints, zext(v, w, 64))
    hint = E.hints or {}
    for t in hint.get("terms", []):
        add_term(inv_ints, t if isc(t) else zext(t, t.size(), 64))
    for p in hint.get("ptrs", []):
        inv_ptrs.append(p)

    def candidates(shp):
        vs = mkvars(shp)
        cs = []

        def C(name, fn):
            cs.append(Cand(name, fn))
        if hint.get("lean"):
            for v in vs:
                if v.t0() is not None:
                    C("%s==init" % v.name, lambda s, v=v, t0=v.t0(): eq(v.t(s), t0))
        if hint.get("lean") and not nested:          # innermost loops: a few of the usual relations
            for v in vs:
                t0 = v.t0()
                if t0 is not None and v.kind == "ptr":
                    C("%s>=init" % v.name, lambda s, v=v, t0=t0: ule(t0, v.t(s)))
                if t0 is not None and v.kind == "int":
                    C("%s<=init" % v.name, lambda s, v=v, t0=t0: ule(v.t(s), t0))
                if v.kind == "ptr":
                    seen = []
                    for p in inv_ptrs:
                        if p.blk is v.blk and not any(eq(p.off, q) is True for q in seen):
                            seen.append(p.off)
                            C("%s<=%s" % (v.name, p.off), lambda s, v=v, p=p: ule(v.t(s), p.off))
                else:
                    for t in inv_ints:
                        if not (isc(t) and t == 0):
                            C("%s<=%s" % (v.name, t), lambda s, v=v, t=t: ule(v.t(s), t))
            for a, b in itertools.combinations(vs, 2):
                a0, b0 = a.t0(), b.t0()
                if a0 is not None and b0 is not None:
                    C("d%s==d%s" % (a.name, b.name), lambda s, a=a, b=b, a0=a0, b0=b0: eq(sub(a.t(s), a0), sub(b.t(s), b0)))
                    C("d%s==-d%s" % (a.name, b.name), lambda s, a=a, b=b, a0=a0, b0=b0: eq(sub(a.t(s), a0), sub(b0, b.t(s))))
        for v in vs if not hint.get("lean") else []:
            t0 = v.t0()
            if v.kind == "ptr":
                blk = v.blk
                C("%s<=size" % v.name, lambda s, v=v, blk=blk: ule(v.t(s), s.size[blk]))
                C("%s<size" % v.name, lambda s, v=v, blk=blk: ult(v.t(s), s.size[blk]))
                if t0 is not None:
                    C("%s>=init" % v.name, lambda s, v=v, t0=t0: ule(t0, v.t(s)))
                    C("%s<=init" % v.name, lambda s, v=v, t0=t0: ule(v.t(s), t0))
                seen = []
                for p in inv_ptrs:
                    if p.blk is blk and not any(eq(p.off, q) is True for q in seen):
                        seen.append(p.off)
                        C("%s<=%s" % (v.name, p.off), lambda s, v=v, p=p: ule(v.t(s), p.off))
                        C("%s<%s" % (v.name, p.off), lambda s, v=v, p=p: ult(v.t(s), p.off))
                        C("%s>=%s" % (v.name, p.off), lambda s, v=v, p=p: ule(p.off, v.t(s)))
            else:
                w = v.w
                if t0 is not None:
                    C("%s==init" % v.name, lambda s, v=v, t0=t0: eq(v.t(s), t0))
                    C("%s>=init" % v.name, lambda s, v=v, t0=t0: ule(t0, v.t(s)))
                    C("%s<=init" % v.name, lambda s, v=v, t0=t0: ule(v.t(s), t0))
                    if isc(t0):
                        pass
                C("%s>=s0" % v.name, lambda s, v=v, w=w: sle(0, v.get(s), w))
                C("%s>=s-1" % v.name, lambda s, v=v, w=w: sle(M(w), v.get(s), w))
                C("%s!=0" % v.name, lambda s, v=v, w=w: lnot(eq(v.get(s), 0, w)))
                for k in sorted(consts):
                    if k <= M(w) and k > 1:
                        C("%s<=%d" % (v.name, k), lambda s, v=v, k=k, w=w: ule(v.get(s), k, w))
                    if 0 < k <= M(w):
                        C("%s>=%d" % (v.name, k), lambda s, v=v, k=k, w=w: ule(k, v.get(s), w))
                for t in inv_ints:
                    if isc(t) and t in (0,):
                        continue
                    C("%s<=%s" % (v.name, t), lambda s, v=v, t=t: ule(v.t(s), t))
                    C("%s<%s" % (v.name, t), lambda s, v=v, t=t: ult(v.t(s), t))
        for a, b in itertools.combinations(vs if not hint.get("lean") else [], 2):
            a0, b0 = a.t0(), b.t0()
            if a.kind == "ptr" and b.kind == "ptr" and a.blk is b.blk:
                C("%s<=%s" % (a.name, b.name), lambda s, a=a, b=b: ule(a.t(s), b.t(s)))
                C("%s<=%s" % (b.name, a.name), lambda s, a=a, b=b: ule(b.t(s), a.t(s)))
                C("%s==%s" % (b.name, a.name), lambda s, a=a, b=b: eq(b.t(s), a.t(s)))
            if a.kind == "int" and b.kind == "int":
                C("%s<=%s" % (a.name, b.name), lambda s, a=a, b=b: ule(a.t(s), b.t(s)))
                C("%s<=%s" % (b.name, a.name), lambda s, a=a, b=b: ule(b.t(s), a.t(s)))
            if a.kind != b.kind or a.kind == "int":
                C("%s==%s" % (a.name, b.name), lambda s, a=a, b=b: eq(a.t(s), b.t(s)))
            if a0 is not None and b0 is not None:
                C("d%s==d%s" % (a.name, b.name), lambda s, a=a, b=b, a0=a0, b0=b0: eq(sub(a.t(s), a0), sub(b.t(s), b0)))
                C("d%s==-d%s" % (a.name, b.name), lambda s, a=a, b=b, a0=a0, b0=b0: eq(sub(a.t(s), a0), sub(b0, b.t(s))))
                for k in hint.get("scales", []):
                    C("d%s==%d*d%s" % (a.name, k, b.name), lambda s, a=a, b=b, a0=a0, b0=b0, k=k: eq(sub(a.t(s), a0), mul(sub(b.t(s), b0), k)))
                    C("%d*d%s==d%s" % (k, a.name, b.name), lambda s, a=a, b=b, a0=a0, b0=b0, k=k: eq(mul(sub(a.t(s), a0), k), sub(b.t(s), b0)))
                if a.kind == "ptr" and b.kind == "ptr":
                    C("d%s<=d%s" % (a.name, b.name), lambda s, a=a, b=b, a0=a0, b0=b0: ule(sub(a.t(s), a0), sub(b.t(s), b0)))
                    C("d%s<=d%s" % (b.name, a.name), lambda s, a=a, b=b, a0=a0, b0=b0: ule(sub(b.t(s), b0), sub(a.t(s), a0)))
                if a.kind != b.kind:
                    p, i = (a, b) if a.kind == "ptr" else (b, a)
                    if p.t0() is not None:
                        C("%s-init<=%s" % (p.name, i.name), lambda s, p=p, i=i, p0=p.t0(): ule(sub(p.t(s), p0), i.t(s)))
                        C("size-%s>=%s" % (p.name, i.name), lambda s, p=p, i=i: ule(i.t(s), sub(s.size[p.blk], p.t(s))))
        lc = LoopCtx(E, E0, vs, shp, hint, inv_ints, inv_ptrs, depth)
        for hf in hint.get("cands", []):
            for name, fn in hf(lc):
                C("H:" + name, fn)
        return cs, vs, lc

    nested = any(h2 != h and h2 in body for h2 in f.loops) or any(i.op == "call" for bb in body for i in f.blocks[bb].instrs)
    # ---- phase A/C: structural fixpoint, then Houdini
    heads = {}
    optimistic = {}
    npre = {}         # head -> number of facts its state starts with (the facts met on the way come after them)
    layers = {}       # blk -> (lo(state), hi(state), val or None)
    layername = {}
    tried = set()
    lkey = lambda blk: "%s|%s|%s" % (trace0, h, blk.name)
    shname = lambda shp: tuple(("%s/%s" % (x[0].name, x[1]) if x and len(x) == 2 else "null") if x else "-" for x in shp)
    trace0 = E0.trace

    def akey(shp):
        return "%s|%s|%d|%s" % (trace0, h, bool(layers), norm(str(shname(shp))))

    def build(shp):
        hs = havoc(shp, None)
        hs.trace = engine.digest((trace0, h, shname(shp), bool(layers)))
        fixgen(hs)
        # refine region layers
        for blk in mods.regions:
            if blk in layers:
                lo, hi, val = layers[blk]
                nd = hs.mem[blk]
                # find the loop layer and rebuild it with a guard
                stack = []
                while nd.label != "loop":
                    stack.append(nd)
                    nd = nd.prev
                L, H = lo(hs), hi(hs)
                V = nd.val
                if val is not None:
                    V = val(hs)
                    if isinstance(V, tuple):      # only partly specified: arbitrary where the condition does not hold
                        V = (lambda i, f=V[0], cnd=V[1], g=nd.val: ite(cnd(i), f(i), g(i), 8))
                newn = Node(nd.prev, "layer", L, None, V, lambda i, L=L, H=H: land(ule(L, i), ult(i, H)), "loop")
                for x in reversed(stack):
                    newn = Node(newn, x.k, x.off, x.n, x.val, x.guard, x.label)
                hs.mem[blk] = newn
        return hs

    def body_run(hs):
        w = hs.clone()
        rets, backs, exits = E.run([w], ctx)
        if rets:
            raise Unsupported("return inside loop body")
        return backs, exits

    def at_head(b):
        b = b.clone()
        E.enter(b)
        return b

    def structural():
        """grow mods/heads until stable; returns {shape: (hs, backs_at_head)}"""
        for _ in range(30):
            s0 = shape(E0)
            if s0 not in heads:
                heads[s0] = newcands(s0)
                if early():
                    heads.clear()
                    heads[s0] = newcands(s0)
                if nested:
                    chk_entry()
            res = {}
            again = False
            for shp in list(heads):
                cs, vs, lc = heads[shp]
                hs = build(shp)
                for c in cs:
                    if c.alive == "assume":
                        for x in inst(E, c, hs, lc):
                            hs.assume(x)
                            optimistic.setdefault(x.get_id(), []).append((c, x))
                npre[shp] = len(hs.pc)
                E.infer += 1
                try:
                    backs, exits = body_run(hs)
                finally:
                    E.infer -= 1
                bh = [at_head(b) for b in backs]
                old = mods.sig()
                for b in bh:
                    diff_mods(E, b, hs, mods, None)
                if mods.sig() != old:
                    heads.clear()
                    again = True
                    break
                for b in bh:
                    s2 = shape(b)
                    if s2 not in heads:
                        heads[s2] = newcands(s2)
                        again = True
                res[shp] = (hs, bh)
            if not again:
                return res
        raise Unsupported("loop structure does not stabilise in " + nm)

    def early():
        """hint "early": the blocks the loop writes start with the first layer the hints give (kept only if it turns out to hold)"""
        n = len(tried)
        if hint.get("early"):
            for blk in mods.regions:
                if blk not in layers and blk not in tried:
                    tried.add(blk)
                    lc = heads[shape(E0)][2]
                    opts = [o for rf in hint.get("ranges", []) for o in rf(blk, lc)]
                    vals = [x for bfn in hint.get("vals", []) for x in bfn(blk, lc) or []]
                    if opts and vals:
                        name, lo, hi = opts[0]
                        blk.ghost["layernvals"], blk.ghost["layeropts"] = len(vals), vals[1:]
                        layername[blk] = norm(name)
                        layers[blk] = (lo, hi, vals[0])
        return len(tried) > n and bool(layers)

    def newcands(shp):
        """candidates of a head; for nested loops they are assumed optimistically and dropped until the rest is inductive"""
        cs, vs, lc = candidates(shp)
        w = E.warm.get(akey(shp)) if nested and not E.trust else None
        tr = False
        if w is None:
            w = E.annot.get(akey(shp))
            if w is None and FORCE:
                w = E.annot[akey(shp)] = [norm(c.name) for c in cs if not re.search(FORCE, c.name)]
            if w is not None:
                w = set(w)
                tr = E.trust
                for c in cs:
                    if norm(c.name) not in w:
                        c.off = True
        for c in cs:
            if nested or tr:
                c.alive = "assume" if w is None or norm(c.name) in w else False
            elif c.off:
                c.alive = False
        return cs, vs, lc

    def trusted():
        """saved invariants for every head: used as they are here; the final pass proves them (and the fallback infers anew)"""
        return E.trust and all(akey(shp) in E.annot for shp in heads)

    def chk_entry():
        s0 = shape(E0)
        if E.trust and akey(s0) in E.annot:
            return
        for c in heads[s0][0]:
            c.alive = c.alive and True
        houdini({}, True)
        mark()

    def houdini(res, entry_only=False):
        """drop candidates not inductive; res: shape -> (hs, backs)"""
        for shp in heads:
            for c in heads[shp][0]:
                if c.alive is False and not nested and not c.off:
                    c.alive = True      # retry everything
        edges = [(None, E0)]
        s0 = shape(E0)
        dead = 0

        def chk(src, tgt_state, shp):
            nonlocal dead
            cs = [c for c in heads[shp][0] if c.alive]
            for _ in range(60):
                cs = [c for c in cs if c.alive]
                exprs = []
                for c in cs:
                    try:
                        e = c.f(tgt_state)
                    except Unsupported:
                        e = False
                    if e is False:
                        c.alive = False
                        dead += 1
                    elif e is not True:
                        exprs.append((c, e))
                if not exprs:
                    return
                # an assumption whose clause has been dropped meanwhile does not count any more
                asm = [x for k, x in enumerate(tgt_state.pc) if k >= npre.get(src, 0) or isc(x) or not any(y.alive is False for y, _ in optimistic.get(x.get_id(), ())) or
                       any(y.alive for y, _ in optimistic[x.get_id()])]
                if src is not None:
                    hs = res[src][0]
                    for c in heads[src][0]:
                        if c.alive:
                            asm += inst(E, c, hs, heads[src][2])
                E.tick()
                if nested or any(specset(e) for _, e in exprs):
                    left = prove_groups(asm, [e for _, e in exprs], 1000, E.fuel, "houdini0 " + nm)
                    if not left:
                        return
                    ids = {e.get_id() for e in left}
                    exprs = [x for x in exprs if x[1].get_id() in ids]
                neg = z3.Or([z3.Not(zb(e)) for _, e in exprs])
                r, m = solve(asm + [neg], 5000, fuel=E.fuel, want_model=True, tag="houdini " + nm)
                if r == "unsat":
                    return
                if r == "unknown":
                    # split: test individually
                    for c, e in exprs:
                        r1, _ = solve(asm + [z3.Not(zb(e))], 1500, fuel=E.fuel, tag="houdini1 " + nm)
                        if r1 != "unsat":
                            c.alive = False
                            dead += 1
                    return
                n = 0
                for c, e in exprs:
                    v = m.eval(e, model_completion=True)
                    if DEBUG > 2 and not z3.is_true(v) and os.environ.get('WVC_CAND','#') in c.name:
                        print('   DROP', c.name, 'src', src, 'depth', depth, E.model_text(m)[:1500])
                    if z3.is_false(v):
                        c.alive = False
                        n += 1
                    elif not z3.is_true(v):
                        c.alive = False
                        n += 1
                if n == 0:
                    for c, e in exprs:
                        r1, _ = solve(asm + [z3.Not(zb(e))], 1500, fuel=E.fuel, tag="houdini1 " + nm)
                        if r1 != "unsat":
                            c.alive = False
                            n += 1
                    if n == 0:
                        return
                dead += n
        chk(None, E0, s0)
        while True:
            before = dead
            for shp, (hs, bh) in res.items():
                for b in bh:
                    chk(shp, b, shape(b))
            if dead == before:
                break

    def assumed():
        return sum(1 for shp in heads for c in heads[shp][0] if c.alive)

    def mark():
        for shp in heads:
            for c in heads[shp][0]:
                c.alive = "assume" if c.alive else False

    def infer():
        res = None
        rnd = 0
        while True:
            res = structural()
            n0 = assumed()
            if not trusted():
                houdini(res)
            n = assumed()
            mark()
            rnd += 1
            if DEBUG > 1 and nested:
                print("   round %d of %s: %d -> %d candidates t=%.1f" % (rnd, nm, n0, n, time.time() - t_start))
            if n == n0 or not nested:
                break
        for shp in heads:
            alive = {norm(c.name) for c in heads[shp][0] if c.alive}
            if nested:
                E.warm[(akey(shp))] = alive
            E.annot_new[akey(shp)] = sorted(alive)
        return res

    res = infer()
    if mods.regions:
        preset = set(layers)
        choose_layers(E, E0, mods, heads, res, layers, hint, shape, inv_ptrs, inv_ints, depth, lkey, layername)
        if layers:
            if set(layers) != preset:
                heads.clear() if nested else None
                for shp in heads:
                    for c in heads[shp][0]:
                        c.off = False
                    w = E.annot.get(akey(shp))
                    for c in heads[shp][0]:
                        c.off = w is not None and norm(c.name) not in set(w)
                        c.alive = not c.off
                        if c.alive and w is not None and E.trust:
                            c.alive = "assume"
            for attempt in range(8):
                if attempt or set(layers) != preset:
                    res = infer()
                bad = [] if trusted() and all("L" + lkey(b) in E.annot for b in mods.regions) else check_layers(E, E0, mods, heads, res, layers, shape, None)
                if not bad:
                    break
                for blk in bad:
                    lo, hi, val = layers[blk]
                    opts = blk.ghost.get("layeropts", [])
                    if val is not None and opts:
                        layers[blk] = (lo, hi, opts.pop(0))
                    elif val is not None:
                        layers[blk] = (lo, hi, None)
                    else:
                        del layers[blk]
                for shp in heads:
                    for c in heads[shp][0]:
                        if not c.off:
                            c.alive = "assume" if nested else True
            for i, blk in enumerate(mods.regions):
                E.annot_new["L%s" % lkey(blk)] = [layername.get(blk, ""), blk.ghost.get("layernvals", 0) - len(blk.ghost.get("layeropts", [])) - 1
                                                   if blk in layers and layers[blk][2] is not None else -1] if blk in layers else None
    # ---- final run, with obligations recorded when not nested in an inference
    allexits = []
    finals = {}
    s0 = shape(E0)
    if not E.infer:
        record_inv(E, None, E0, heads[s0][0], nm, "invariant holds on entry")
    for shp in list(heads):
        cs, vs, lc = heads[shp]
        hs = build(shp)
        for c in cs:
            if c.alive:
                hs.assume(inst(E, c, hs, lc))
        backs, exits = body_run(hs)
        bh = [at_head(b) for b in backs]
        m2 = Mods()
        m2.cells = {b: dict(c) for b, c in mods.cells.items()}
        m2.regions, m2.sizes = set(mods.regions), set(mods.sizes)
        for b in bh:
            diff_mods(E, b, hs, m2, None)
            if shape(b) not in heads:
                raise Unsupported("new loop head shape in the final pass of " + nm)
        if m2.sig() != mods.sig():
            raise Unsupported("loop frame changed in the final pass of " + nm)
        finals[shp] = (hs, bh)
        allexits += exits
    if not E.infer:
        for shp, (hs, bh) in finals.items():
            for b in bh:
                record_inv(E, hs, b, heads[shape(b)][0], nm, "invariant preserved")
        if layers or mods.regions:
            bad = check_layers(E, E0, mods, heads, finals, layers, shape, nm)
        termination(E, finals, heads, nm, shape, hint)
    li = E.loopinfo.setdefault(nm, {})
    li["inv"] = [[c.name for c in heads[shp][0] if c.alive] for shp in heads]
    if DEBUG:
        print("  LOOP %s heads=%d inv=%d regions=%s t=%.1f infer=%d" % (nm, len(heads), assumed(), [(b, 'spec' if layers.get(b, (0, 0, None))[2] else 'havoc' if b in layers else 'full') for b in mods.regions], time.time() - t_start, E.infer))
        if DEBUG > 1:
            for shp in heads:
                print("     ", [c.name for c in heads[shp][0] if c.alive])
    return allexits


class LoopCtx:
    """what hint templates can use"""

    def __init__(s, E, E0, vs, shp, hint, ints, ptrs, depth):
        s.E, s.E0, s.vars, s.shape, s.hint, s.inv_ints, s.inv_ptrs, s.depth = E, E0, vs, shp, hint, ints, ptrs, depth

    def ptrs(s, blk=None):
        return [v for v in s.vars if v.kind == "ptr" and (blk is None or v.blk is blk)]

    def ints(s):
        return [v for v in s.vars if v.kind == "int"]


def choose_layers(E, E0, mods, heads, res, layers, hint, shape, inv_ptrs, inv_ints, depth, lkey, layername):
    """pick [lo,hi) for each block written at symbolic offsets: all writes and the old region stay inside"""
    for blk in mods.regions:
        if blk in layers:
            continue
        opts = []
        los, his = [], []
        s0 = shape(E0)
        vs = heads[s0][1]
        for v in vs:
            if v.kind == "ptr" and v.blk is blk:
                his.append((v.name, lambda s, v=v: v.t(s)))
                if v.t0() is not None:
                    los.append((v.name + "0", lambda s, t=v.t0(): t))
        los.append(("0", lambda s: 0))
        for v in vs:
            if v.kind == "int" and v.w == 64:
                his.append((v.name, lambda s, v=v: v.t(s)))
                if v.t0() is not None:
                    los.append((v.name + "0", lambda s, t=v.t0(): t))
        for p in inv_ptrs:
            if p.blk is blk:
                for v in vs:
                    if v.kind == "int":
                        his.append(("p+" + v.name, lambda s, p=p, v=v: add(p.off, v.t(s))))
                        los.append(("p", lambda s, p=p: p.off))
        for x in hint.get("lo", []):
            los.append(("hint", lambda s, x=x: x))
        for hf in hint.get("hi", []):
            his.append(("hint", hf))
        for v in vs:
            if v.kind == "ptr" and v.blk is blk:
                his.append((v.name + "+1", lambda s, v=v: add(v.t(s), 1)))
        given = [o for rf in hint.get("ranges", []) for o in rf(blk, heads[s0][2])]
        opts += given
        # downward regions: [ptr, init)
        for v in vs:
            if v.kind == "ptr" and v.blk is blk and v.t0() is not None:
                opts.append((v.name + "down", lambda s, v=v: v.t(s), lambda s, t=v.t0(): t))
        opts = [("%s..%s" % (ln, hn), lo, hi) for ln, lo in los for hn, hi in his] + opts
        if hint.get("lean") and given:
            opts = given
        for p in inv_ptrs:
            for q in inv_ptrs:
                if p.blk is blk and q.blk is blk and p is not q:
                    opts.append(("inv", lambda s, p=p: p.off, lambda s, q=q: q.off))
        chosen = None
        an = E.annot.get("L" + lkey(blk))
        if E.trust and an is None and "L" + lkey(blk) in E.annot:
            continue
        if an:
            opts = [o for o in opts if norm(o[0]) == an[0]] + [o for o in opts if norm(o[0]) != an[0]]
        for name, lo, hi in opts:
            ok = True
            if an and E.trust and norm(name) == an[0]:
                chosen = (lo, hi, name)
                break
            for shp, (hs, bh) in res.items():
                L, H = lo(hs), hi(hs)
                for b in bh:
                    L2, H2 = lo(b), hi(b)
                    goals = [lor(ule(H, L), land(ule(L2, L), ule(H, H2)))]
                    nd = b.mem[blk]
                    while nd is not hs.mem[blk]:
                        if nd.k in ("int", "ptr"):
                            goals.append(land(ule(L2, nd.off), ule(add(nd.off, nd.n), H2)))
                        elif nd.k == "layer":
                            k = fresh("K", 64)
                            goals.append(implies(nd.guard(k), land(ule(L2, k), ult(k, H2))))
                        nd = nd.prev
                    asm = list(b.pc)
                    for c in heads[shp][0]:
                        if c.alive:
                            asm += inst(E, c, hs, heads[shp][2])
                    g = land(*goals)
                    if g is True:
                        continue
                    E.tick()
                    r, _ = solve(asm + [z3.Not(zb(g))], 3000, fuel=1, tag="region")
                    if r != "unsat":
                        ok = False
                        if DEBUG > 2:
                            print("   region", blk, name, r, str(g)[:1500])
                        break
                if not ok:
                    break
            if ok:
                chosen = (lo, hi, name)
                break
        if chosen:
            vals = []
            for bfn in hint.get("vals", []):
                x = bfn(blk, heads[shape(E0)][2])
                if x:
                    vals += x
            blk.ghost["layernvals"] = len(vals)
            if an:
                vals = vals[an[1]:] if an[1] >= 0 else []
            blk.ghost["layeropts"] = vals[1:]
            layername[blk] = norm(chosen[2])
            layers[blk] = (chosen[0], chosen[1], vals[0] if vals else None)
            if DEBUG > 1:
                print("   region", blk, chosen[2], "spec" if vals else "")


def agrees(V, k, v):
    if isinstance(V, tuple):
        return implies(V[1](k), eq(v, V[0](k), 8))
    return eq(v, V(k), 8)


def check_layers(E, E0, mods, heads, res, layers, shape, nm):
    """contents of the cut region: entry and every back edge agree with the layer, everything else is unchanged"""
    bad = []
    for blk in mods.regions:
        if blk not in layers:
            continue
        lo, hi, val = layers[blk]
        k = E.K
        dec0 = None
        old = read_byte(E0.mem[blk], k, E.decide(E0))
        goals = []
        # entry
        inr = land(ule(lo(E0), k), ult(k, hi(E0)))
        if val is not None:
            goals.append((None, E0, implies(inr, agrees(val(E0), k, old)), list(E0.pc)))
        for shp, (hs, bh) in res.items():
            for b in bh:
                inr = land(ule(lo(b), k), ult(k, hi(b)))
                v = read_byte(b.mem[blk], k, E.decide(b))
                g = implies(lnot(inr), eq(v, old, 8))
                if val is not None:
                    g = land(g, implies(inr, agrees(val(b), k, v)))
                asm = list(b.pc)
                for c in heads[shp][0]:
                    if c.alive:
                        asm += inst(E, c, hs, heads[shp][2])
                goals.append((shp, b, g, asm))
        for shp, b, g, asm in goals:
            if g is True:
                continue
            uni = [zb(u(k)) for u in b.univ]
            E.tick()
            t = time.time()
            r, m = solve(asm + uni + [z3.Not(zb(g))], E.timeout, fuel=E.fuel, tag="layer", want_model=DEBUG > 1)
            if nm and not E.infer:
                E.obligs.append(Oblig(b.frames[-1].f.name, "content", nm, {"unsat": "ok", "sat": "FAILED", "unknown": "unknown"}[r],
                                      "bytes written by the loop are as specified and the others unchanged", time.time() - t))
            if r != "unsat":
                if DEBUG > 1:
                    print("   layer check fails for", blk, r, "spec" if val else "fresh", "entry" if shp is None else "back")
                    if DEBUG > 2 and m is not None:
                        print(E.model_text(m)[:2000])
                if not nm:
                    bad.append(blk)
                    break
    return bad


def record_inv(E, hs, b, cands, nm, what):
    es = []
    for c in cands:
        if c.alive:
            e = c.f(b)
            if e is not True:
                es.append(e)
    if not es:
        return
    t = time.time()
    E.tick()
    left = prove_groups(b.pc, es, 3000, E.fuel, "inv0")
    r = "unsat"
    if left:
        r, _ = solve(b.pc + [z3.Not(zb(land(*left)))], E.timeout * 2, fuel=E.fuel, tag="inv")
    o = Oblig(b.frames[-1].f.name, "invariant", nm, {"unsat": "ok", "sat": "FAILED", "unknown": "unknown"}[r], what + " (%d clauses)" % len(es), time.time() - t)
    E.obligs.append(o)
    if r != "unsat" and DEBUG:
        print("  INV", what, r, nm)
        for c in cands:
            if c.alive and any(c.f(b) is not True and zb(c.f(b)).eq(e) for e in left):
                r, m = solve(b.pc + [z3.Not(zb(c.f(b)))], 2000, fuel=E.fuel, want_model=True, tag="dbg")
                print("      ", c.name, r, E.model_text(m)[:3000] if r == "sat" and DEBUG > 2 else "")


def termination(E, finals, heads, nm, shape, hint):
    items = []
    for shp, (hs, bh) in finals.items():
        for b in bh:
            items.append((shp, hs, b))
    meas = {}
    for shp in finals:
        for v in heads[shp][1]:
            meas.setdefault(v.key, v)
    R = list(items)
    order = []
    ms = []
    for key, v in meas.items():
        ms.append((v.name, lambda s, v=v: v.t(s)))
        ms.append(("~" + v.name, lambda s, v=v: simp(~bv(v.t(s), 64))))
    vl = [v for v in meas.values()]
    for a, b in itertools.permutations(vl, 2):
        if a.kind == b.kind:
            ms.append(("%s-%s" % (a.name, b.name), lambda s, a=a, b=b: sub(a.t(s), b.t(s))))
    for n, fn in hint.get("measures", []):
        ms.append((n, fn))
    cache = {}

    def rel(i, k):
        if (i, k) in cache:
            return cache[(i, k)]
        shp, hs, b = items[i]
        r = "no"
        try:
            m0, m1 = ms[k][1](hs), ms[k][1](b)
            if m0 is not None and m1 is not None:
                E.tick()
                lt = ult(m1, m0)
                if lt is True or (lt is not False and solve(b.pc + [z3.Not(lt)], 3000, fuel=1, tag="meas")[0] == "unsat"):
                    r = "lt"
                else:
                    e = ule(m1, m0)
                    if e is True or (e is not False and solve(b.pc + [z3.Not(e)], 3000, fuel=1, tag="meas")[0] == "unsat"):
                        r = "le"
        except (KeyError, Unsupported):
            r = "no"
        cache[(i, k)] = r
        return r
    rem = list(range(len(items)))
    while rem:
        found = None
        for k in range(len(ms)):
            if k in order:
                continue
            any_lt, ok = False, True
            # quick: first test
            for i in rem:
                r = rel(i, k)
                if r == "no":
                    ok = False
                    break
                if r == "lt":
                    any_lt = True
            if ok and any_lt:
                found = k
                break
        if found is None:
            break
        order.append(found)
        rem = [i for i in rem if rel(i, found) != "lt"]
    st = "ok" if not rem else "FAILED"
    b0 = items[0][2] if items else None
    fn = b0.frames[-1].f.name if b0 else nm.split("@")[0]
    E.obligs.append(Oblig(fn, "variant", nm, st, "loop terminates: lexicographic measure (%s)" % ", ".join(ms[k][0] for k in order), 0))
    if rem and DEBUG:
        print("  VARIANT not found", nm)


Eng.process_loop = process_loop
