"""Verification-condition generator: path-wise symbolic execution between cut points of the real IR.

Every function with a contract is verified against it once; call sites use the contract only.
Functions without a contract (helpers) are executed inline.  Loops are unrolled only when their
controlling branch is concrete at every iteration (constant tables); every other loop is cut and
replaced by an inductive invariant (inferred by Houdini from candidates, proved by the solver)."""
import time, itertools, os, zlib
import z3
from term import *
import term
from mem import *
import ir

DEBUG = int(os.environ.get("WVC_DEBUG", "0"))


class Frame:
    __slots__ = ("f", "env", "bb", "ip", "prev", "dst", "depth", "allocas")

    def __init__(s, f, depth, dst=None):
        s.f, s.env, s.bb, s.ip, s.prev, s.dst, s.depth = f, {}, f.order[0], 0, None, dst, depth
        s.allocas = []

    def clone(s):
        r = Frame.__new__(Frame)
        r.f, r.env, r.bb, r.ip, r.prev, r.dst, r.depth = s.f, dict(s.env), s.bb, s.ip, s.prev, s.dst, s.depth
        r.allocas = s.allocas
        return r


def digest(x):
    return zlib.crc32(repr(x).encode())


class State:
    def __init__(s):
        s.frames = []
        s.mem = {}        # Blk -> Node
        s.size = {}       # Blk -> size
        s.live = {}       # Blk -> 'live' | 'freed' | 'escaped'
        s.gen = {}        # Blk -> generation (bumped by realloc)
        s.pc = []
        s.univ = []       # list of fn(K)->Bool over byte index skolems
        s.unroll = {}
        s.edge = None
        s.ret = None
        s.notes = {}
        s.trace = 0       # which path led here (keys the warm start of nested loops)

    def clone(s):
        r = State.__new__(State)
        r.frames = [f.clone() for f in s.frames]
        r.mem, r.size, r.live, r.gen = dict(s.mem), dict(s.size), dict(s.live), dict(s.gen)
        r.pc, r.univ, r.unroll = list(s.pc), list(s.univ), dict(s.unroll)
        r.edge, r.ret = s.edge, s.ret
        r.notes = dict(s.notes)
        r.trace = s.trace
        return r

    def assume(s, c):
        if c is True:
            return
        if isinstance(c, (list, tuple)):
            for x in c:
                s.assume(x)
            return
        s.pc.append(c)

    def new(s, name, kind, size, base=None, esz=1):
        b = Blk(name, kind, esz)
        s.mem[b] = base if base is not None else base_sym(name)
        s.size[b] = size
        s.live[b] = "live"
        s.gen[b] = 0
        if not isc(size):
            s.assume(z3.ULT(size, 1 << 48))
        return b


class Oblig:
    __slots__ = ("func", "kind", "line", "status", "desc", "time", "model", "n")

    def __init__(s, func, kind, line, status, desc, t, model=None):
        s.func, s.kind, s.line, s.status, s.desc, s.time, s.model = func, kind, line, status, desc, t, model

    def key(s):
        return "%s:%s:%s" % (s.func, s.kind, s.line)


class Budget(Exception):
    pass


class UnrollFail(Exception):
    pass


class Eng:
    def __init__(s, prog, contracts, timeout_ms=20000, deadline=None):
        s.prog = prog
        s.contracts = contracts
        s.obligs = []
        s.infer = 0
        s.timeout = timeout_ms
        s.deadline = deadline
        s.policy = {}
        s.globs = {}
        s.cur = None
        s.under = None            # name of function under verification
        s.footprint = None
        s.npaths = 0
        s.assumed = set()         # external functions / trusted models used
        s.used_contracts = set()
        s.inlined = set()
        s.loopinfo = {}
        s.cut_hints = []
        s.warm = {}
        s.annot = {}              # invariants found on an earlier run: tried first, checked like any other
        s.annot_new = {}
        s.only = None             # verify one variant of the contract only
        s.trust = False           # saved invariants are only checked in the final pass of each loop
        s.fail_fast = True
        s.fuel = 2

    # ------------------------------------------------------------------ solving
    def tick(s):
        if s.deadline and time.time() > s.deadline:
            raise Budget("time budget exhausted")

    def feasible(s, st, extra=(), ms=3000):
        s.tick()
        r, _ = solve(st.pc + [zb(x) for x in extra if x is not True], ms, fuel=1, tag="feas")
        return r != "unsat"

    def decide(s, st):
        def d(c):
            if isinstance(c, bool):
                return c
            s.tick()
            r, _ = solve(st.pc + [z3.Not(c)], 2000, fuel=1, tag="decide")
            return r == "unsat"
        return d

    def prove(s, st, goal, ks=(), ms=None, want_model=False):
        if goal is True:
            return "unsat", None
        s.tick()
        g = zb(goal)
        uni = [u(k) for u in st.univ for k in ks]
        uni = [zb(u) for u in uni if u is not True]
        if not z3.is_false(g):
            # most goals follow from the assumptions that speak about the same functions
            fs = specset(g)
            few = [x for x in st.pc if specset(x) <= fs]
            if len(few) < len(st.pc):
                r, _ = solve(few + [u for u in uni if specset(u) <= fs] + [z3.Not(g)], 1500, fuel=s.fuel if fs else 0, tag="few")
                if r == "unsat":
                    return r, None
        return solve(st.pc + uni + [z3.Not(g)], ms or s.timeout, fuel=s.fuel, want_model=want_model, tag=s.under)

    def oblig(s, st, kind, goal, line, desc="", ks=()):
        """prove goal (unless inferring) and then assume it"""
        if not s.infer:
            t = time.time()
            r, m = s.prove(st, goal, ks, want_model=True)
            fn = st.frames[-1].f.name if st.frames else s.under
            o = Oblig(fn if kind != "post" else s.under, kind, line, {"unsat": "ok", "sat": "FAILED", "unknown": "unknown"}[r], desc, time.time() - t)
            if r == "sat" and m is not None:
                o.model = s.model_text(m)
            s.obligs.append(o)
            if r != "unsat" and DEBUG:
                print("  OBLIG", o.status, o.func, kind, line, desc)
                if DEBUG > 1 and r == "sat":
                    for e in [goal] + st.pc[-6:]:
                        print("      ", str(e)[:300].replace("\n", " "))
                    print("      model", o.model[:600])
        if goal is False:
            st.pc.append(z3.BoolVal(False))
        else:
            st.assume(goal)

    def model_text(s, m):
        out = []
        for d in m.decls()[:60]:
            try:
                out.append("%s=%s" % (d.name(), str(m[d]).replace("\n", " ")[:120]))
            except Exception:
                pass
        return "; ".join(sorted(out))

    # ------------------------------------------------------------------ memory access
    def glob(s, st, name, mod):
        if s.prog.func(name, mod) is not None or (name in mod.decls and s.prog.glob(name, mod) is None):
            return FnPtr(name)
        g = s.prog.glob(name, mod)
        if g is None or g.external:
            g2 = s.prog.gext.get(name)
            if g2 is None:
                # external object such as stderr
                key = ("ext", name)
                if key not in s.globs:
                    b = Blk(name, "const")
                    s.globs[key] = (b, base_sym(name, lambda off: NULL), 8, None)
                b, base, sz, _ = s.globs[key]
                if b not in st.mem:
                    st.mem[b], st.size[b], st.live[b], st.gen[b] = base, sz, "live", 0
                return Ptr(b, 0)
            g = g2
        key = (g.mod.name, name)
        if key not in s.globs:
            data, rel = g.mod.image(g.init, g.ty)
            ro = g.const or not s.stored_global(g)
            b = Blk(name.replace(".", "_"), "const" if ro else "global")
            s.globs[key] = (b, None, len(data), g)
            rp = {}
            if ro and len(data) > 2048 and not rel:
                # a large table: an uninterpreted function of the offset; contracts add facts about it that they check on its contents
                D = SpecFn("tab_" + name, [BV64, BV8], None)
                b.ghost["tabfn"] = D
                s.globs[key] = (b, base_fn(lambda i: (data[i] if i < len(data) else 0) if isc(i) else D(i), lambda off: None, "table"), len(data), g)
            else:
                s.globs[key] = (b, base_const(data, rp) if ro else None, len(data), g)
            s.globs[key + ("rel",)] = rp
            b.ghost["data"] = data if ro else None
            b.ghost["rel"] = rp
            b.ghost["global"] = g
            for off, c in rel:
                rp[off] = s.constptr(st, c, g.mod)
        b, base, sz, g = s.globs[key]
        if b not in st.mem:
            if base is None:
                base = base_sym(b.name)
            st.mem[b], st.size[b], st.live[b], st.gen[b] = base, sz, "live", 0
            rp = s.globs[key + ("rel",)]
            for off in rp:
                if isinstance(rp[off], Ptr) and rp[off].blk is not None and rp[off].blk not in st.mem:
                    s.constptr(st, dict(g.mod.image(g.init, g.ty)[1])[off], g.mod)
        return Ptr(b, 0)

    def stored_global(s, g):
        key = ("stored", g.mod.name, g.name)
        if key not in s.globs:
            r = False
            for m in s.prog.mods.values():
                if g.internal and m is not g.mod:
                    continue
                for f in m.funcs.values():
                    for b in f.blocks.values():
                        for i in b.instrs:
                            if i.op == "store" and g.name in i.text.split("ptr ")[-1]:
                                r = True
                            if i.op == "call" and ("@" + g.name) in i.text and "memset" in i.text:
                                r = True
                            if i.op == "getelementptr" and ("@" + g.name + ",") in i.text:
                                # conservatively: a derived pointer that is stored through
                                for b2 in f.blocks.values():
                                    for j in b2.instrs:
                                        if j.op == "store" and isinstance(j.args[1], ir.Local) and j.args[1].name == i.dst:
                                            r = True
            s.globs[key] = r
        return s.globs[key]

    def constptr(s, st, c, mod):
        if c.k == "global":
            return s.glob(st, c.v, mod)
        if c.k == "null":
            return NULL
        if c.k == "gep":
            bt, base, idx = c.v
            p = s.constptr(st, base, mod)
            off = s.gepoff(mod, bt, [(i.ty, i.v) for i in idx])
            return Ptr(p.blk, add(p.off, off), p.gen)
        raise Unsupported("const ptr %r" % c)

    def gepoff(s, mod, bt, idx):
        off = 0
        t = bt
        for n, (ity, v) in enumerate(idx):
            w = ity.w
            if n == 0:
                sz = mod.sizeof(t)
                off = add(off, mul(sext(v & M(w) if isc(v) else v, w, 64), sz))
            elif t.k == "struct":
                off = add(off, mod.fieldoff(t, v))
                t = t.fields[v]
            else:
                sz = mod.sizeof(t.el)
                off = add(off, mul(sext(v & M(w) if isc(v) else v, w, 64), sz))
                t = t.el
        return off

    def check_access(s, st, p, n, line, what):
        if isinstance(p, FnPtr):
            raise Unsupported("access through function pointer")
        if p.blk is None:
            s.oblig(st, what, False, line, "null pointer dereference")
            return False
        if p.blk is POISON:
            s.oblig(st, what, False, line, "use of an unspecified pointer")
            return False
        sz = st.size[p.blk]
        if st.live[p.blk] != "live":
            s.oblig(st, what, False, line, "use after free of %s" % p.blk)
            return False
        if p.gen != st.gen[p.blk]:
            s.oblig(st, what, False, line, "stale pointer into reallocated %s" % p.blk)
            return False
        # off + n <= size, no wrap (sizes are below 2^48)
        ext = p.blk.ghost.get("extent")
        if ext is not None:                        # a family of separate objects
            g = ext(s, st, p.off, n)
        elif isc(n):
            g = land(ule(n, sz), ule(p.off, sub(sz, n)))
        else:
            g = lor(eq(n, 0), land(ule(n, sz), ule(p.off, sub(sz, n))))
        if g is not True:
            s.oblig(st, what, g, line, "access of %s byte(s) within %s" % (n if isc(n) else "n", p.blk.name))
        return not (g is False)

    def check_frame(s, st, p, n, line):
        b = p.blk
        if b.kind == "const":
            s.oblig(st, "frame", False, line, "write to constant %s" % b)
            return
        if b in s.owned or b.kind in ("stack", "heap") and b not in s.preblocks:
            return
        if b in s.freeframe:
            return
        regs = [(lo, hi) for (bb, lo, hi) in s.footprint if bb is b]
        g = False
        for lo, hi in regs:
            x = land(ule(lo, p.off), ule(add(p.off, n), hi))
            g = lor(g, x)
            if g is True:
                return
        if not isc(n):
            g = lor(eq(n, 0), g)
        s.oblig(st, "frame", g, line, "write stays inside the declared frame of %s" % b.name)

    def load(s, st, p, ty, mod, line):
        n = mod.sizeof(ty)
        if not s.check_access(st, p, n, line, "load"):
            return None
        node = st.mem[p.blk]
        if ty.k == "ptr":
            return read_ptr(node, p.off, s.decide(st))
        v = read_int(node, p.off, n, s.decide(st))
        if isinstance(v, Ptr):
            v = s.ptr2int(st, v)
        if p.blk.read_fact and n == 1:
            st.assume(p.blk.read_fact(st, p.off, v))
        if ty.w == 1:
            return trunc(v, 8, 1)
        if ty.w < 8 * n:
            v = trunc(v, 8 * n, ty.w)
        return v

    def store(s, st, p, v, ty, mod, line):
        n = mod.sizeof(ty)
        if not s.check_access(st, p, n, line, "store"):
            return
        fam = p.blk.ghost.get("family")
        if fam is not None and p.blk is fam.arr:
            if ty.k != "ptr":
                raise Unsupported("integer stored into an array of pointers")
            return fam.store(s, st, p.off, v, line)
        s.check_frame(st, p, n, line)
        if ty.k == "ptr":
            st.mem[p.blk] = Node(st.mem[p.blk], "ptr", p.off, 8, v)
        else:
            if ty.w == 1:
                v = zext(v, 1, 8)
            st.mem[p.blk] = Node(st.mem[p.blk], "int", p.off, n, v)

    def rd(s, st, p, n):
        """raw read for contracts"""
        v = read_int(st.mem[p.blk], p.off, n, s.decide(st))
        return v

    def rdp(s, st, p):
        return read_ptr(st.mem[p.blk], p.off, s.decide(st))

    def ptr2int(s, st, p):
        if isinstance(p, FnPtr):
            raise Unsupported("ptrtoint of function")
        if p.blk is None:
            return p.off
        a, z = p.blk.addr(), st.size.get(p.blk)
        if p.blk.kind in ("global", "const") and isc(z):      # an object does not start at 0 and does not wrap around
            st.assume(z3.And(z3.ULE(bv(1, 64), bv(a, 64)), z3.ULE(bv(a, 64), bv((1 << 64) - 1 - z, 64))))
        return add(a, p.off)

    def copy(s, st, d, dsto, sblk_node, so, n, read_fact=None):
        """memcpy n bytes from (node,so) to block d at dsto"""
        if isc(n) and n <= 64 and isc(dsto) and isc(so):
            pieces = []
            try:
                s._cells(st, sblk_node, so, n, pieces)
                for (k, o, sz, v) in pieces:
                    st.mem[d] = Node(st.mem[d], k, add(dsto, o), sz, v)
                return
            except Unsupported:
                pass
        if isc(n) and n <= 16:
            for i in range(n):
                v = read_byte(sblk_node, add(so, i), s.decide(st))
                st.mem[d] = Node(st.mem[d], "int", add(dsto, i), 1, v)
            return
        dec = s.decide(st)
        st.mem[d] = Node(st.mem[d], "layer", dsto, n, lambda i, node=sblk_node: read_byte(node, add(sub(i, dsto), so), dec),
                         lambda i: ult(sub(i, dsto), n), "memcpy")

    def _cells(s, st, node, so, n, out):
        """split a concrete range into cells as last written (keeps pointers)"""
        i = 0
        while i < n:
            nd = node
            while True:
                if nd.k in ("int", "ptr"):
                    d = sub(so + i, nd.off)
                    if not isc(d):
                        raise Unsupported("cells")
                    if d < nd.n:
                        if d == 0 and i + nd.n <= n:
                            out.append((nd.k, i, nd.n, nd.val))
                            i += nd.n
                            break
                        raise Unsupported("cells")
                elif nd.k == "layer":
                    if nd.guard(so + i) is not False:
                        raise Unsupported("cells")
                elif nd.k == "base":
                    if nd.guard is not None and (so + i) % 8 == 0 and i + 8 <= n:
                        r = nd.guard(so + i)
                        if r is not None:
                            out.append(("ptr", i, 8, r))
                            i += 8
                            break
                    out.append(("int", i, 1, nd.val(so + i)))
                    i += 1
                    break
                nd = nd.prev

    # ------------------------------------------------------------------ operands
    def val(s, st, op, ty=None):
        if isinstance(op, ir.Local):
            e = st.frames[-1].env
            if op.name not in e:
                raise Unsupported("undefined local %s" % op.name)
            return e[op.name]
        k = op.k
        if k == "int":
            t = op.ty or ty
            if t.w == 1:
                return bool(op.v & 1)
            return op.v & M(t.w)
        if k == "null":
            return NULL
        if k == "undef":
            t = ty or op.ty
            if t is not None and t.k == "int":
                return fresh("undef", t.w)
            return Ptr(POISON, 0)
        if k in ("global", "gep"):
            return s.constptr(st, op, st.frames[-1].f.mod)
        if k == "zero":
            return 0
        raise Unsupported("operand %r" % op)

    # ------------------------------------------------------------------ execution
    def run(s, work, ctx=None):
        """explore; returns (rets, backs, exits)"""
        rets, backs, exits = [], [], []
        work = list(work)
        while work:
            s.tick()
            st = work.pop()
            if st.edge is not None:
                r = s.goto(st, ctx, backs, exits)
            else:
                r = s.exec(st)
            for x in r:
                if x.ret is not None and not x.frames:
                    rets.append(x)
                else:
                    work.append(x)
        return rets, backs, exits

    def goto(s, st, ctx, backs, exits):
        frm, to = st.edge
        fr = st.frames[-1]
        f = fr.f
        st.trace = digest((st.trace, f.name, frm, to))
        if ctx is not None and fr.depth == ctx[0]:
            if to == ctx[1]:
                backs.append(st)
                return []
            if to not in ctx[2]:
                exits.append(st)
                return []
        if to in f.loops:
            body = f.loops[to]
            ukey = (fr.depth, to)
            pkey = (tuple(x.f.name for x in st.frames), to)
            if frm in body:
                # back edge of an unrolled loop
                if ukey in st.unroll:
                    st.unroll[ukey] += 1
                    if st.unroll[ukey] > 400:
                        s.policy[pkey] = "cut"
                        raise UnrollFail(pkey)
                    s.enter(st)
                    return [st]
                if not f.irreducible:
                    raise Unsupported("back edge to a loop not being unrolled: %s" % to)
                # a loop entered in its middle reaches its head for the first time
            # loop entry
            pol = "cut" if f.irreducible else s.policy.get(pkey)
            if pol is None:
                pol = s.trial_policy(st, f, to)
                if pol == "cut":
                    s.policy[pkey] = "cut"
            if pol == "unroll":
                st.unroll[ukey] = 0
                s.enter(st)
                return [st]
            return s.process_loop(st, f, to, body, pkey)
        s.enter(st)
        return [st]

    def controlling(s, f, h):
        body = f.loops[h]
        t = f.blocks[h].term
        if t.op in ("br", "switch") and any(x not in body for x in f.blocks[h].succs()):
            return h
        lat = [b for b in f.blocks[h].preds if b in body]
        if len(lat) == 1 and any(x not in body for x in f.blocks[lat[0]].succs()):
            return lat[0]
        return None

    def trial_policy(s, st, f, h):
        c = s.controlling(f, h)
        if c is None:
            return "cut"
        if c != h:
            return "unroll"      # optimistic; UnrollFail if the latch condition is symbolic
        t = st.clone()
        try:
            s.infer += 1
            s.enter(t)
            fr = t.frames[-1]
            bl = f.blocks[h]
            for ins in bl.instrs[:-1]:
                if ins.op == "call":
                    return "cut"
                s.simple(t, ins)
            term = bl.term
            v = s.val(t, term.args[0], term.ty)
            return "unroll" if isc(v) else "cut"
        except Unsupported:
            return "cut"
        finally:
            s.infer -= 1

    def enter(s, st):
        """take st.edge: evaluate phis"""
        frm, to = st.edge
        fr = st.frames[-1]
        b = fr.f.blocks[to]
        vals = {}
        for ph in b.phis:
            for v, pb in ph.x:
                if pb == frm:
                    vals[ph.dst] = s.val(st, v, ph.ty)
                    break
        fr.env.update(vals)
        fr.prev, fr.bb, fr.ip = frm, to, 0
        st.edge = None

    def exec(s, st):
        """run the current frame until a fork / edge / return"""
        fr = st.frames[-1]
        blk = fr.f.blocks[fr.bb]
        while True:
            ins = blk.instrs[fr.ip]
            op = ins.op
            if op == "br":
                if len(ins.x) == 1:
                    st.edge = (fr.bb, ins.x[0])
                    return [st]
                c = s.val(st, ins.args[0], None)
                return s.branch(st, fr, [(c, ins.x[0]), (lnot(c), ins.x[1])])
            if op == "switch":
                v = s.val(st, ins.args[0], ins.ty)
                d, cases = ins.x
                w = ins.ty.w
                if isc(v):
                    for cv, l in cases:
                        if cv & M(w) == v:
                            st.edge = (fr.bb, l)
                            return [st]
                    st.edge = (fr.bb, d)
                    return [st]
                by = {}
                for cv, l in cases:
                    by.setdefault(l, []).append(eq(v, cv & M(w), w))
                alts = [(lor(*cs), l) for l, cs in by.items()]
                alts.append((land(*[lnot(c) for c, _ in alts]), d))
                return s.branch(st, fr, alts)
            if op == "ret":
                v = s.val(st, ins.args[0], ins.ty) if ins.args else None
                for a in fr.allocas:
                    if st.live.get(a) == "live":
                        st.live[a] = "dead"
                st.frames.pop()
                for k in [k for k in st.unroll if k[0] == fr.depth]:
                    del st.unroll[k]
                if not st.frames:
                    st.ret = (v,)
                    s.npaths += 1
                    return [st]
                up = st.frames[-1]
                if fr.dst is not None:
                    up.env[fr.dst] = v
                return [st]
            if op == "unreachable":
                s.oblig(st, "unreachable", False, ins.line, "unreachable code")
                return []
            if op == "call":
                fr.ip += 1
                r = s.call(st, ins)
                if r is not None:
                    return r
                if st.frames[-1] is not fr:
                    return [st]
                continue
            if op == "select":
                c = s.val(st, ins.args[0], None)
                a = s.val(st, ins.args[1], ins.ty)
                b = s.val(st, ins.args[2], ins.ty)
                if ins.ty.k == "ptr" and not isc(c):
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.blk is b.blk and a.gen == b.gen and a.blk is not None:
                        fr.env[ins.dst] = Ptr(a.blk, ite(c, a.off, b.off), a.gen)
                        fr.ip += 1
                        continue
                    out = []
                    for cc, vv in ((c, a), (lnot(c), b)):
                        if s.feasible(st, [cc]):
                            t = st.clone()
                            t.assume(cc)
                            t.trace = digest((t.trace, len(out)))
                            t.frames[-1].env[ins.dst] = vv
                            t.frames[-1].ip += 1
                            out.append(t)
                    return out
                if ins.ty.k == "ptr":
                    fr.env[ins.dst] = a if c else b
                else:
                    fr.env[ins.dst] = ite(c, a, b, ins.ty.w)
                fr.ip += 1
                continue
            if op == "load" and ins.ty.k == "ptr":
                # may need a fork over a constant table of pointers
                p = s.val(st, ins.args[0], ir.PTR)
                fam = p.blk.ghost.get("family") if isinstance(p, Ptr) and p.blk is not None and p.blk is not POISON else None
                if fam is not None and p.blk is fam.arr:
                    if not s.check_access(st, p, 8, ins.line, "load"):
                        return []
                    alts = [(c, v) for c, v in fam.load(s, st, p.off) if c is True or s.feasible(st, [c])]
                    out = []
                    for c, v in alts:
                        t = st.clone() if len(alts) > 1 else st
                        t.assume(c)
                        if len(alts) > 1:
                            t.trace = digest((t.trace, len(out)))
                        t.frames[-1].env[ins.dst] = v
                        t.frames[-1].ip += 1
                        out.append(t)
                    if len(alts) == 1:
                        continue
                    return out
                if isinstance(p, Ptr) and p.blk is not None and p.blk is not POISON and not isc(p.off) and p.blk.ghost.get("rel"):
                    if not s.check_access(st, p, 8, ins.line, "load"):
                        return []
                    out = []
                    for o, tgt in p.blk.ghost["rel"].items():
                        c = eq(p.off, o)
                        if c is False or not s.feasible(st, [c]):
                            continue
                        t = st.clone()
                        t.assume(c)
                        t.trace = digest((t.trace, o))
                        if isinstance(tgt, Ptr) and tgt.blk is not None and tgt.blk not in t.mem:
                            s.glob(t, p.blk.ghost["global"].name, p.blk.ghost["global"].mod)
                        t.frames[-1].env[ins.dst] = tgt
                        t.frames[-1].ip += 1
                        out.append(t)
                    c = land(*[lnot(eq(p.off, o)) for o in p.blk.ghost["rel"]])
                    if s.feasible(st, [c]):
                        raise Unsupported("pointer table read at a non-entry offset")
                    return out
            r = s.simple(st, ins)
            if r is False:
                return []
            fr.ip += 1

    def branch(s, st, fr, alts):
        out = []
        live = [(c, l) for c, l in alts if c is not False]
        sym = any(c is not True for c, _ in live)
        if sym:
            # unrolled loop with a symbolic controlling branch -> cut it instead
            for (dep, h) in list(st.unroll):
                if dep == fr.depth and s.controlling(fr.f, h) == fr.bb and fr.bb in fr.f.loops[h]:
                    feas = [(c, l) for c, l in live if c is True or s.feasible(st, [c])]
                    if len(feas) > 1:
                        pkey = (tuple(x.f.name for x in st.frames), h)
                        s.policy[pkey] = "cut"
                        raise UnrollFail(pkey)
                    live = feas
        if len(live) > 1:
            live = [(c, l) for c, l in live if c is True or s.feasible(st, [c])]
        for i, (c, l) in enumerate(live):
            t = st if i == len(live) - 1 else st.clone()
            t.assume(c)
            t.edge = (fr.bb, l)
            out.append(t)
        return out

    # ------------------------------------------------------------------ straight-line instructions
    def simple(s, st, ins):
        fr = st.frames[-1]
        env = fr.env
        op = ins.op
        mod = fr.f.mod
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a = s.val(st, ins.args[0], ins.ty)
            b = s.val(st, ins.args[1], ins.ty)
            env[ins.dst] = s.binop(st, op, a, b, ins.ty.w, ins)
        elif op == "icmp":
            if ins.ty.k == "ptr":
                env[ins.dst] = s.ptrcmp(st, ins.x, s.val(st, ins.args[0]), s.val(st, ins.args[1]))
            else:
                a = s.val(st, ins.args[0], ins.ty)
                b = s.val(st, ins.args[1], ins.ty)
                env[ins.dst] = icmp(ins.x, a, b, ins.ty.w)
        elif op in ("zext", "sext", "trunc"):
            a = s.val(st, ins.args[0], ins.x)
            env[ins.dst] = {"zext": zext, "sext": sext, "trunc": trunc}[op](a, ins.x.w, ins.ty.w)
        elif op == "getelementptr":
            p = s.val(st, ins.args[0], ir.PTR)
            idx = []
            for t, v in ins.x:
                x = s.val(st, v, t)
                idx.append((t, x))
            off = s.gepoff(mod, ins.ty, idx)
            if isinstance(p, FnPtr):
                raise Unsupported("gep of function")
            env[ins.dst] = Ptr(p.blk, add(p.off, off), p.gen)
        elif op == "load":
            p = s.val(st, ins.args[0], ir.PTR)
            v = s.load(st, p, ins.ty, mod, ins.line)
            if v is None:
                return False
            env[ins.dst] = v
        elif op == "store":
            v = s.val(st, ins.args[0], ins.ty)
            p = s.val(st, ins.args[1], ir.PTR)
            s.store(st, p, v, ins.ty, mod, ins.line)
        elif op == "alloca":
            n = s.val(st, ins.args[0], None)
            sz = mul(n, mod.sizeof(ins.ty))
            b = st.new(ins.dst, "stack", sz)
            st.mem[b] = base_sym(ins.dst, lambda off: None)
            fr.allocas = fr.allocas + [b]
            env[ins.dst] = Ptr(b, 0)
        elif op == "select":
            c = s.val(st, ins.args[0], None)
            a = s.val(st, ins.args[1], ins.ty)
            b = s.val(st, ins.args[2], ins.ty)
            if ins.ty.k == "ptr":
                if isc(c):
                    env[ins.dst] = a if c else b
                elif a.blk is b.blk:
                    env[ins.dst] = Ptr(a.blk, ite(c, a.off, b.off), a.gen)
                else:
                    raise Unsupported("select of pointers")
            else:
                env[ins.dst] = ite(c, a, b, ins.ty.w)
        elif op == "freeze":
            env[ins.dst] = s.val(st, ins.args[0], ins.ty)
        elif op == "ptrtoint":
            env[ins.dst] = trunc(s.ptr2int(st, s.val(st, ins.args[0], ir.PTR)), 64, ins.ty.w) if ins.ty.w < 64 else \
                s.ptr2int(st, s.val(st, ins.args[0], ir.PTR))
        else:
            raise Unsupported("instruction " + ins.text)
        return True

    def binop(s, st, op, a, b, w, ins):
        if w == 1:
            if op == "and":
                return simp(z3.And(zb(a), zb(b))) if not (isc(a) and isc(b)) else (a and b)
            if op == "or":
                return simp(z3.Or(zb(a), zb(b))) if not (isc(a) and isc(b)) else (a or b)
            if op == "xor":
                return simp(z3.Xor(zb(a), zb(b))) if not (isc(a) and isc(b)) else (a != b)
            raise Unsupported("i1 " + op)
        if isc(a) and isc(b):
            m = M(w)
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> min(b, w - 1)) & m
            if b != 0:
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                q = -q if (sa < 0) != (sb < 0) else q
                if op == "sdiv":
                    return q & m
                if op == "srem":
                    return (sa - q * sb) & m
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isc(b) or b == 0:
                s.oblig(st, "div", lnot(eq(b, 0, w)), ins.line, "division by zero")
        if op in ("shl", "lshr", "ashr") and not isc(b):
            s.oblig(st, "shift", ult(b, w, w), ins.line, "shift amount below width")
        x, y = bv(a, w), bv(b, w)
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
             "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
             "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
        return simp(r)

    def ptrcmp(s, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                e = a.name == b.name
            else:
                e = False
            return e if pred == "eq" else not e
        if a.blk is POISON or b.blk is POISON:
            raise Unsupported("comparison of an unspecified pointer")
        if a.blk is b.blk:
            p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred) if a.blk is not None else pred
            return icmp(p, a.off, b.off, 64)
        if a.blk is None or b.blk is None:
            nul = a if a.blk is None else b
            if isc(nul.off) and nul.off == 0:
                if pred == "eq":
                    return False
                if pred == "ne":
                    return True
                r = {"ult": True, "ule": True, "ugt": False, "uge": False}[pred]
                return r if a.blk is None else not r
        if pred == "eq" and isc(a.off) and isc(b.off) and a.off == 0 and b.off == 0:
            return False
        if pred == "ne" and isc(a.off) and isc(b.off) and a.off == 0 and b.off == 0:
            return True
        raise Unsupported("comparison of pointers into different objects")

    # ------------------------------------------------------------------ calls
    def call(s, st, ins):
        fr = st.frames[-1]
        mod = fr.f.mod
        args = [s.val(st, v, t) for t, v in ins.args]
        tgt = ins.x
        if isinstance(tgt, ir.Local):
            fp = fr.env[tgt.name]
            if not isinstance(fp, FnPtr):
                raise Unsupported("indirect call")
            name = fp.name
        else:
            name = tgt.v
        return s.invoke(st, name, mod, args, ins)

    def invoke(s, st, name, mod, args, ins):
        fr = st.frames[-1]
        import externs
        f = s.prog.func(name, mod)
        c = s.contracts.get(name)
        if c is not None and name != s.under and f is not None:
            s.used_contracts.add(name)
            return s.apply_contract(c, st, args, ins, f)
        h = externs.MODELS.get(name)
        if h is None and name.startswith("llvm."):
            h = externs.MODELS.get(name.split(".p0")[0].split(".i64")[0])
        if h is not None and f is None:
            s.assumed.add(name)
            r = h(s, st, args, ins)
            return r
        if f is None:
            raise Unsupported("external function " + name)
        if len(st.frames) > 12 or any(x.f is f for x in st.frames):
            raise Unsupported("recursion or deep inlining of " + name)
        s.inlined.add(name)
        nf = Frame(f, fr.depth + 1, ins.dst)
        for (pn, pt), a in zip(f.params, args):
            nf.env[pn] = a
        nf.env["#va"] = args[len(f.params):]
        nf.env["#vat"] = [t for t, _ in ins.args[len(f.params):]] if ins.op == "call" else []
        st.frames.append(nf)
        return None

    def apply_contract(s, c, st, args, ins, f):
        line = ins.line
        ctx = Ctx(s, c, st, args, f)
        c.bind(ctx)
        for lab, cond in c.requires(ctx):
            s.oblig(st, "pre", cond, line, "%s requires %s" % (c.name, lab))
        out = []
        pre = st.clone()
        ctx.pre = pre
        outs = c.outcomes(ctx)
        for o in outs:
            t = st.clone()
            t.trace = digest((t.trace, len(out), c.name))
            m = CallMode(s, t, ctx, f)
            try:
                fp = c.footprint(ctx)
                m.havoc_footprint(fp)
                o(ctx, m)
            except Dead:
                continue
            if len(outs) > 1 and not s.feasible(t):
                continue
            if ins.dst is not None:
                t.frames[-1].env[ins.dst] = m.retval(f.ret)
            out.append(t)
        return out

    # ------------------------------------------------------------------ verification of one contract
    def verify(s, c, f):
        s.under = c.name
        while True:
            s.obligs = []
            s.npaths = 0
            try:
                return s._verify(c, f)
            except UnrollFail:
                s.infer = 0
                continue

    def _verify(s, c, f):
        out = []
        for k, v in enumerate(getattr(c, "variants", (None,))):
            if s.only is not None and s.only != k:
                continue
            out += s._verify1(c, f, v)
        return out

    def _verify1(s, c, f, variant):
        s.owned, s.preblocks, s.freeframe, s.mayfree = set(), set(), set(), set()
        s.variant = variant
        s.K = fresh("K", 64)
        s.hints = None
        s.footprint = []
        st = State()
        st.trace = digest(variant)
        ctx = Ctx(s, c, st, None, f)
        ctx.v["variant"] = variant
        ctx.verifying = True
        args = c.setup(ctx)
        ctx.args = args
        c.bind(ctx)
        for lab, cond in c.requires(ctx):
            if cond is False:
                raise Unsupported("contradictory precondition of " + c.name)
            st.assume(cond)
        s.preblocks = set(st.mem)
        r, _ = solve(st.pc, 20000, fuel=1)
        s.obligs.append(Oblig(c.name, "vacuity", 0, "ok" if r == "sat" else "unknown", "precondition is satisfiable", 0))
        s.footprint = c.footprint(ctx)
        s.footprint = [tuple(x[:3]) for x in s.footprint]
        ctx.pre = st.clone()
        s.ctx = ctx
        fr = Frame(f, 0)
        for (pn, pt), a in zip(f.params, args):
            fr.env[pn] = a
        fr.env["#va"] = []
        st.frames.append(fr)
        s.hints = c.hints(ctx)
        rets, _, _ = s.run([st])
        ctx.rets = len(rets)
        for t in rets:
            s.check_post(c, ctx, t, f)
        return rets

    def check_post(s, c, ctx, t, f):
        if not s.feasible(t):
            return
        conds = []
        for o in c.outcomes(ctx):
            u = t.clone()
            m = VerMode(s, u, ctx, f)
            try:
                o(ctx, m)
                m.finish()
            except Dead:
                continue
            finally:
                pass
            conds.append(land(*m.whens))
        s.oblig(t.clone(), "post", lor(*conds), 0, "some specified outcome of %s applies (returned %s)" % (c.name, t.ret[0] if isc(t.ret[0] if t.ret[0] is not None else 0) else "?"))


class Dead(Exception):
    pass


class _Poison:
    kind = "poison"
    name = "poison"

    def __repr__(s):
        return "<unspecified>"


POISON = _Poison()


def icmp(pred, a, b, w):
    if w == 1:
        if pred == "eq":
            return simp(zb(a) == zb(b)) if not (isc(a) and isc(b)) else a == b
        if pred == "ne":
            return simp(zb(a) != zb(b)) if not (isc(a) and isc(b)) else a != b
    if pred == "eq":
        return eq(a, b, w)
    if pred == "ne":
        return lnot(eq(a, b, w))
    if pred == "ult":
        return ult(a, b, w)
    if pred == "ule":
        return ule(a, b, w)
    if pred == "ugt":
        return ult(b, a, w)
    if pred == "uge":
        return ule(b, a, w)
    if pred == "slt":
        return slt(a, b, w)
    if pred == "sle":
        return sle(a, b, w)
    if pred == "sgt":
        return slt(b, a, w)
    if pred == "sge":
        return sle(b, a, w)
    raise Unsupported("icmp " + pred)


class Ctx:
    """what a contract talks about: arguments, pre-state, the engine"""

    def __init__(s, E, c, st, args, f):
        s.E, s.c, s.st, s.args, s.f = E, c, st, args, f
        s.pre = st
        s.v = {}
        s.verifying = False

    def rd(s, p, n=1, off=0):
        return s.E.rd(s.pre, Ptr(p.blk, add(p.off, off)), n)

    def byte(s, blk, idx):
        return read_byte(s.pre.mem[blk], idx, s.E.decide(s.pre))

    def rdp(s, p, off=0):
        return s.E.rdp(s.pre, Ptr(p.blk, add(p.off, off)))

    def size(s, blk):
        return s.pre.size[blk]

    E_size = size


class CallMode:
    verify = False

    def __init__(s, E, st, ctx, f):
        s.E, s.st, s.ctx, s.f = E, st, ctx, f
        s._ret = None

    def havoc_footprint(s, fp):
        for x in fp:
            blk, lo, hi = x[:3]
            kind = x[3] if len(x) > 3 else "bytes"
            if kind == "ptr":
                s.st.mem[blk] = Node(s.st.mem[blk], "ptr", lo, 8, Ptr(POISON, 0))
            elif kind == "cell":
                n = sub(hi, lo)
                s.st.mem[blk] = Node(s.st.mem[blk], "int", lo, n, fresh("hv", 8 * n))
            else:
                s.havoc(blk, lo, hi)

    def retval(s, ty):
        if ty.k == "void":
            return None
        if s._ret is None:
            if ty.k == "ptr":
                return Ptr(POISON, 0)
            s._ret = fresh("ret", ty.w)
        return s._ret

    def when(s, c):
        if c is False:
            raise Dead()
        s.st.assume(c)

    def ret_is(s, v):
        s._ret = v

    def ret_any(s, w=None):
        if s._ret is None:
            s._ret = fresh("ret", w or s.f.ret.w)
        return s._ret

    def cell(s, blk, off, n, name="cell"):
        v = fresh(name, 8 * n)
        s.st.mem[blk] = Node(s.st.mem[blk], "int", off, n, v)
        return v

    def cell_is(s, blk, off, n, v, label=""):
        s.st.mem[blk] = Node(s.st.mem[blk], "int", off, n, v)

    def ptr_is(s, blk, off, p, label=""):
        s.st.mem[blk] = Node(s.st.mem[blk], "ptr", off, 8, p)

    def ptr_into(s, blk, off, tgt, gen=0, name="poff"):
        """pointer cell pointing somewhere into block tgt; returns its offset"""
        o = fresh(name, 64)
        s.st.mem[blk] = Node(s.st.mem[blk], "ptr", off, 8, Ptr(tgt, o, s.st.gen[tgt]))
        return o

    def keep(s, blk, off, n):
        """cell keeps its value"""
        v = read_int(s.ctx.pre.mem[blk], off, n, s.E.decide(s.st))
        s.st.mem[blk] = Node(s.st.mem[blk], "int", off, n, v)

    def region(s, blk, lo, hi, fn, label=""):
        s.st.mem[blk] = Node(s.st.mem[blk], "layer", lo, None, fn, lambda i: land(ule(lo, i), ult(i, hi)), label or "spec")

    def havoc(s, blk, lo, hi):
        g = fresh_fn("hv_" + blk.name, BV64, BV8)
        s.st.mem[blk] = Node(s.st.mem[blk], "layer", lo, None, lambda i: g(bv(i, 64)), lambda i: land(ule(lo, i), ult(i, hi)), "havoc")

    def ensure(s, c, label=""):
        s.st.assume(c)

    def forall(s, fn, label=""):
        s.st.univ.append(fn)

    def heap(s, blk, off, name, size, base=None, zero=False):
        """pointer cell (blk,off) := newly allocated block of the given size"""
        b = s.st.new(name, "heap", size, base)
        s.st.mem[blk] = Node(s.st.mem[blk], "ptr", off, 8, Ptr(b, 0))
        return b

    def ret_heap(s, name, size, base=None):
        b = s.st.new(name, "heap", size, base)
        s._ret = Ptr(b, 0)
        return b

    def freed(s, blk):
        s.st.live[blk] = "freed"

    def resize(s, blk, size=None):
        """the object may have been reallocated: its size changes and old pointers are stale; returns the size"""
        if size is None:
            size = fresh("size_" + blk.name, 64)
            s.st.assume(z3.ULT(size, 1 << 48))
        s.st.size[blk] = size
        s.st.gen[blk] = s.st.gen[blk] + 1
        return size

    def here(s, blk, off=0):
        """a current pointer into blk"""
        return Ptr(blk, off, s.st.gen[blk])

    def byte(s, blk, idx):
        return read_byte(s.st.mem[blk], idx, s.E.decide(s.st))

    def rd(s, blk, off, n):
        return read_int(s.st.mem[blk], off, n, s.E.decide(s.st))

    def size(s, blk):
        return s.st.size[blk]


class VerMode:
    verify = True

    def __init__(s, E, st, ctx, f):
        s.E, s.st, s.ctx, s.f = E, st, ctx, f
        s.whens = []
        s.accounted = set()
        s.freedok = set()

    def when(s, c):
        if c is False:
            raise Dead()
        s.whens.append(c)
        s.st.assume(c)
        if not isc(c) and not s.E.feasible(s.st):
            raise Dead()

    def _retv(s):
        return s.st.ret[0]

    def ret_is(s, v):
        r = s._retv()
        if isinstance(v, Ptr):
            ok = isinstance(r, Ptr) and r.blk is v.blk
            if not ok:
                raise Dead()
            s.when(eq(r.off, v.off))
            return
        if s.f.ret.w == 1:
            s.when(icmp("eq", r, v, 1))
        else:
            s.when(eq(r, v, s.f.ret.w))

    def ret_any(s, w=None):
        return s._retv()

    def ensure(s, c, label="", ks=()):
        s.E.oblig(s.st, "post", c, label, label, ks)

    def forall(s, fn, label=""):
        k = s.E.K
        s.E.oblig(s.st, "post", fn(k), label, label, [k])

    def cell(s, blk, off, n, name="cell"):
        v = read_int(s.st.mem[blk], off, n, s.E.decide(s.st))
        if isinstance(v, Ptr):
            raise Unsupported("pointer where an integer cell is specified")
        return v

    def cell_is(s, blk, off, n, v, label=""):
        x = s.cell(blk, off, n)
        s.E.oblig(s.st, "post", eq(x, v, 8 * n), label, label or "stored value as specified")

    def ptr_is(s, blk, off, p, label=""):
        r = read_ptr(s.st.mem[blk], off, s.E.decide(s.st))
        g = isinstance(r, Ptr) and r.blk is p.blk and (r.blk is None or r.blk is POISON or r.gen == s.st.gen[r.blk]) and eq(r.off, p.off)
        s.E.oblig(s.st, "post", g, label, label or "stored pointer as specified")

    def ptr_into(s, blk, off, tgt, gen=0, name=""):
        r = read_ptr(s.st.mem[blk], off, s.E.decide(s.st))
        if not (isinstance(r, Ptr) and r.blk is tgt and r.gen == s.st.gen[tgt]):
            s.E.oblig(s.st, "post", False, name, "stored pointer points into the specified object")
            return 0
        return r.off

    def keep(s, blk, off, n):
        v0 = read_int(s.ctx.pre.mem[blk], off, n, s.E.decide(s.st))
        s.cell_is(blk, off, n, v0)

    def region(s, blk, lo, hi, fn, label=""):
        k = s.E.K
        node = s.st.mem[blk]
        v = read_byte(node, k, s.E.decide(s.st))
        s.E.oblig(s.st.clone(), "post", implies(land(ule(lo, k), ult(k, hi)), eq(v, fn(k), 8)), label,
                  label or "region of %s as specified" % blk.name, [k])

    def havoc(s, blk, lo, hi):
        pass

    def heap(s, blk, off, name, size, base=None, zero=False):
        r = read_ptr(s.st.mem[blk], off, s.E.decide(s.st))
        ok = isinstance(r, Ptr) and r.blk is not None and r.blk is not POISON and r.blk.kind == "heap" and r.blk not in s.E.preblocks \
            and s.st.live.get(r.blk) == "live"
        s.E.oblig(s.st, "post", ok and eq(r.off, 0), name, "%s is a live allocation made by the call" % name)
        if not ok:
            raise Dead()
        s.E.oblig(s.st, "post", ule(size, s.st.size[r.blk]), name, "%s has the specified size" % name)
        s.accounted.add(r.blk)
        return r.blk

    def ret_heap(s, name, size, base=None):
        r = s._retv()
        ok = isinstance(r, Ptr) and r.blk is not None and r.blk is not POISON and r.blk.kind == "heap" and r.blk not in s.E.preblocks \
            and s.st.live.get(r.blk) == "live"
        s.E.oblig(s.st, "post", ok and eq(r.off, 0), name, "%s is a live allocation made by the call" % name)
        if not ok:
            raise Dead()
        s.E.oblig(s.st, "post", ule(size, s.st.size[r.blk]), name, "%s has the specified size" % name)
        s.accounted.add(r.blk)
        return r.blk

    def freed(s, blk):
        s.freedok.add(blk)
        s.E.oblig(s.st, "post", s.st.live.get(blk) == "freed", "free", "%s was released" % blk.name)

    def resize(s, blk, size=None):
        if size is not None:
            s.E.oblig(s.st, "post", eq(s.st.size[blk], size), "resize", "%s has the specified size" % blk.name)
        return s.st.size[blk]

    def here(s, blk, off=0):
        return Ptr(blk, off, s.st.gen[blk])

    def byte(s, blk, idx):
        return read_byte(s.st.mem[blk], idx, s.E.decide(s.st))

    def rd(s, blk, off, n):
        return read_int(s.st.mem[blk], off, n, s.E.decide(s.st))

    def size(s, blk):
        return s.st.size[blk]

    def finish(s):
        for b, lv in s.st.live.items():
            if b.kind != "heap":
                continue
            if b in s.E.preblocks:
                if lv == "freed" and b not in s.freedok:
                    s.E.oblig(s.st, "post", False, "free", "%s must not be released" % b.name)
            elif lv == "live" and b not in s.accounted:
                s.E.oblig(s.st, "leak", False, "leak", "allocation %s is neither released nor returned" % b.name)


class Contract:
    """base class; see contracts/*.py"""
    name = None

    def bind(s, c):
        pass

    def requires(s, c):
        return []

    def footprint(s, c):
        return []

    def hints(s, c):
        return None

    def outcomes(s, c):
        raise NotImplementedError
