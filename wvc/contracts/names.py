"""Contracts of the wire-name functions."""
import z3
from term import *
from mem import *
from engine import Contract, Ctx, NULL, Unsupported
from common import *

OK, ERR = 0, 1


def z16(x):
    return zext(x, 8, 16)


class NameSpec:
    """DNS name at a position of a byte region: the labels found by following labels and
    (optionally) compression pointers, as recursive functions of (position, octets emitted so far)."""

    def __init__(s, byte, n, ptrs=True):
        B = lambda i: bv(byte(i), 8)
        N = bv(n, 64)
        s.byte, s.n = B, n
        V = lambda k: z3.BitVecVal(k, 64)

        def step(pos, tl, stop, bad, label, jump):
            c = B(pos)
            c64 = z3.ZeroExt(56, c)
            lo = B(pos + 1)
            tgt = z3.Concat(z3.BitVecVal(0, 50), z3.Extract(5, 0, c), lo)
            r = z3.If(z3.UGE(pos, N), bad,
                      z3.If(c == 0, stop,
                            z3.If(z3.ULE(c, 63), z3.If(z3.ULE(tl + 1 + c64, V(254)), label(c64), bad),
                                  jump(tgt) if ptrs is None else
                                  (z3.If(z3.And(z3.UGE(c, 192), z3.ULT(pos + 1, N), z3.ULT(tgt, pos)), jump(tgt), bad) if ptrs else bad))))
            return r
        # a label must lie inside the region; the octet after it is consulted next, so position < n is checked there
        s.st = SpecFn("nm_ok", [BV64, BV64, z3.BoolSort()], lambda pos, tl: step(
            pos, tl, z3.BoolVal(True), z3.BoolVal(False), lambda c: s.st(pos + 1 + c, tl + 1 + c), lambda t: s.st(t, tl)))
        s.len = SpecFn("nm_len", [BV64, BV64, BV64], lambda pos, tl: step(
            pos, tl, tl + 1, V(0), lambda c: s.len(pos + 1 + c, tl + 1 + c), lambda t: s.len(t, tl)))
        s.out = SpecFn("nm_out", [BV64, BV64, BV64, BV8], lambda pos, tl, k: step(
            pos, tl, z3.BitVecVal(0, 8), z3.BitVecVal(0, 8),
            lambda c: z3.If(k == tl, B(pos), z3.If(z3.ULE(k, tl + c), B(pos + (k - tl)), s.out(pos + 1 + c, tl + 1 + c, k))),
            lambda t: s.out(t, tl, k)))


def name_hints(spec, pkt, s0, dst, d0):
    """template: some pointer into the packet and some count describe the remaining computation"""
    def cands(lc):
        E = lc.E
        K = E.K
        counts = [(v.name, lambda s, v=v: bv(v.t(s), 64)) for v in lc.ints()]
        counts += [(v.name, lambda s, v=v: bv(sub(v.t(s), d0), 64)) for v in lc.ptrs(dst)]
        out = []
        z = z3.BitVecVal(0, 64)
        S0 = bv(s0, 64)
        for P in lc.ptrs(pkt):
            for nm, cf in counts:
                pos = lambda s, P=P: bv(P.t(s), 64)
                out.append(("ok(%s,%s)" % (P.name, nm), lambda s, pos=pos, cf=cf: spec.st(S0, z) == spec.st(pos(s), cf(s))))
                out.append(("len(%s,%s)" % (P.name, nm), lambda s, pos=pos, cf=cf: spec.len(S0, z) == spec.len(pos(s), cf(s))))
                out.append(("out(%s,%s)" % (P.name, nm), lambda s, pos=pos, cf=cf: z3.Implies(
                    z3.ULE(cf(s), K - bv(d0, 64)), spec.out(S0, z, K - bv(d0, 64)) == spec.out(pos(s), cf(s), K - bv(d0, 64)))))
        return out

    def vals(blk, lc):
        if blk is dst:
            return [lambda s: (lambda i: spec.out(s0, 0, sub(i, d0)))]
    return dict(cands=[cands], vals=[vals])


class UnpackName(Contract):
    name = "wdns_unpack_name"
    ptrs = True

    def setup(self, c):
        st = c.st
        n = fresh("n", 64)
        pkt = st.new("pkt", "arg", n)
        dst = st.new("dst", "arg", 255)
        szb = st.new("sz", "arg", 8)
        s = fresh("s", 64)
        c.v["szopt"] = True
        return [Ptr(pkt, 0), Ptr(pkt, n), Ptr(pkt, s), Ptr(dst, 0), Ptr(szb, 0)]

    def bind(self, c):
        p, eop, src, dst, sz = c.args
        if not (p.blk is eop.blk and src.blk is p.blk) or p.blk is None:
            raise Unsupported("unpack_name arguments in different objects")
        c.n = sub(eop.off, p.off)
        c.s = sub(src.off, p.off)
        c.d0 = dst.off
        c.key = None
        pre = c.pre.mem[p.blk]
        dec = c.E.decide(c.pre)
        c.spec = shared(c, "name", p.blk, (p.off, c.n, self.ptrs), lambda: NameSpec(lambda i: read_byte(pre, add(p.off, i), dec), c.n, self.ptrs))

    def requires(self, c):
        p, eop, src, dst, sz = c.args
        rs = [("packet range is valid", land(ule(p.off, eop.off), ule(eop.off, c.E_size(p.blk)))),
              ("255 octets of room at the destination", land(ule(255, c.E_size(dst.blk)), ule(c.d0, sub(c.E_size(dst.blk), 255)))),
              ("source lies in the packet's object", sle(0, c.s))]
        rs[2] = ("start position is not far outside the object", land(slt(c.s, 1 << 48), slt((-(1 << 48)) & M(64), c.s)))
        return rs

    def footprint(self, c):
        p, eop, src, dst, sz = c.args
        fp = [(dst.blk, c.d0, add(c.d0, 255))]
        if sz.blk is not None:
            fp.append((sz.blk, sz.off, add(sz.off, 8), "cell"))
        return fp

    def hints(self, c):
        p, eop, src, dst, sz = c.args
        return name_hints(c.spec, p.blk, c.s, dst.blk, c.d0)

    def start_ok(self, c):
        return land(ult(0, c.n), sle(0, c.s), ult(c.s, c.n))

    def outcomes(self, c):
        p, eop, src, dst, sz = c.args
        sp = c.spec

        def good(c, m):
            m.ret_is(0)
            m.when(land(self.start_ok(c), sp.st(c.s, 0)))
            L = sp.len(c.s, 0)
            m.ensure(z3.And(z3.ULE(L, 255), z3.UGE(L, 1)), "decompressed length is between 1 and 255")
            m.region(dst.blk, c.d0, add(c.d0, L), lambda i: sp.out(c.s, 0, sub(i, c.d0)), "output is the name the packet encodes")
            if sz.blk is not None:
                m.cell_is(sz.blk, sz.off, 8, L, "reported length is the number of octets produced")

        def bad(c, m):
            r = m.ret_any(32)
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(land(self.start_ok(c), sp.st(c.s, 0))))
            if sz.blk is not None:
                m.keep(sz.blk, sz.off, 8)
        return [good, bad]


class CopyUname(UnpackName):
    name = "wdns_copy_uname"
    ptrs = False




def skip_spec(B, N):
    """where the in-place name ends, and whether its labels are all of legal length"""
    N = bv(N, 64)

    def step(pos, stop, jump):
        x = B(pos)
        return z3.If(z3.UGE(pos, N), stop(N), z3.If(x == 0, stop(pos + 1), z3.If(z3.UGE(x, 192), stop(z3.If(z3.UGE(pos + 1, N), N, pos + 2)),
                     jump(pos + 1 + Z64(x)))))
    end = SpecFn("sk_end", [BV64, BV64], lambda pos: step(pos, lambda e: e, lambda p: end(p)))
    wf = SpecFn("sk_wf", [BV64, z3.BoolSort()], lambda pos: z3.If(z3.UGE(pos, N), True, z3.And(
        z3.Or(z3.ULE(B(pos), 63), z3.UGE(B(pos), 192)), z3.If(z3.Or(B(pos) == 0, z3.UGE(B(pos), 192)), True, wf(pos + 1 + Z64(B(pos)))))))
    return end, wf


class SkipName(Contract):
    """skipping a name advances past exactly the octets it occupies in place"""
    name = "wdns_skip_name"

    def setup(self, c):
        st = c.st
        n = fresh("n", 64)
        pkt = st.new("pkt", "arg", n)
        s = fresh("s", 64)
        cell = struct_ptr(c, "datap", 8, [], [(0, Ptr(pkt, s))])
        return [Ptr(cell, 0), Ptr(pkt, n)]

    def bind(self, c):
        d, eod = c.args
        src = c.rdp(d)
        if src.blk is None or eod.blk is not src.blk:
            raise Unsupported("skip_name arguments in different objects")
        c.src, c.s, c.n = src, src.off, eod.off
        B = reader(c, src.blk)
        c.end, c.wf = shared(c, "skip", src.blk, (c.n,), lambda: skip_spec(B, c.n))

    def requires(self, c):
        return [("the position is not beyond the end of the data", land(ule(c.s, c.n), ule(c.n, c.size(c.src.blk))))]

    def footprint(self, c):
        return [(c.args[0].blk, c.args[0].off, add(c.args[0].off, 8), "ptr")]

    def hints(self, c):
        return dict(cands=[tail("end", c.end, [c.s], [P_(c.src.blk)]), tail("wf", c.wf, [c.s], [P_(c.src.blk)]),
                           slop_cands(c.src.blk, c.n, 192)], terms=[c.n])

    def outcomes(self, c):
        d, eod = c.args

        def o(c, m):
            r = m.ret_any(64)
            e = m.ptr_into(d.blk, d.off, c.src.blk, c.src.gen)
            m.ensure(land(ule(c.s, e), ule(e, c.n)), "the position moves forward inside the data")
            m.ensure(eq(r, sub(e, c.s)), "the result is the distance moved")
            m.ensure(implies(ult(c.s, c.n), ult(c.s, e)), "at least one octet is skipped unless at the end")
            E = c.end(c.s)
            m.ensure(implies(c.wf(c.s), e == E), "exactly the octets of the name are skipped")
        return [o]


class LenUname(Contract):
    """length of an uncompressed name: found exactly when the name is well formed, terminated and at most 255 octets"""
    name = "wdns_len_uname"

    def setup(self, c):
        st = c.st
        n = fresh("n", 64)
        pkt = st.new("pkt", "arg", n)
        sz = st.new("sz", "arg", 8)
        return [Ptr(pkt, fresh("s", 64)), Ptr(pkt, n), Ptr(sz, 0)]

    def bind(self, c):
        p, eop, sz = c.args
        if p.blk is not eop.blk or p.blk is None:
            raise Unsupported("len_uname arguments")
        B, N = reader(c, p.blk), bv(eop.off, 64)
        c.ok = SpecFn("un_ok", [BV64, z3.BoolSort()], lambda i: z3.If(z3.UGE(i, N), False, z3.If(B(i) == 0, True, z3.If(z3.ULE(B(i), 63), c.ok(i + 1 + Z64(B(i))), False))))
        c.end = SpecFn("un_end", [BV64, BV64], lambda i: z3.If(z3.UGE(i, N), V(0), z3.If(B(i) == 0, i + 1, z3.If(z3.ULE(B(i), 63), c.end(i + 1 + Z64(B(i))), V(0)))))

    def requires(self, c):
        p, eop, sz = c.args
        return [("the end lies in the object", ule(eop.off, c.size(p.blk))), ("start in the object", ule(p.off, eop.off)),
                ("fewer than 2^32 octets of data", ult(sub(eop.off, p.off), 1 << 32))]

    def footprint(self, c):
        sz = c.args[2]
        return [(sz.blk, sz.off, add(sz.off, 8), "cell")]

    def hints(self, c):
        p, eop, sz = c.args
        return dict(cands=[tail("ok", c.ok, [p.off], [P_(p.blk)]), tail("end", c.end, [p.off], [P_(p.blk)]), rest_cands(p.blk, eop.off)])

    def outcomes(self, c):
        p, eop, sz = c.args
        L = sub(c.end(p.off), p.off)
        good_c = land(c.ok(p.off), ule(L, 255))

        def good(c, m):
            m.ret_is(0)
            m.when(good_c)
            m.cell_is(sz.blk, sz.off, 8, L, "length of the name")

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(good_c))
        return [good, bad]


def slop_cands(blk, end, k):
    def f(lc):
        return [("%s<=end+%d" % (p.name, k), lambda s, p=p: ule(p.t(s), add(end, k))) for p in lc.ptrs(blk)]
    return f


def rest_cands(blk, end):
    """remaining-length variables: pointer + count == end"""
    def f(lc):
        return [("%s+%s=end" % (p.name, v.name), lambda s, p=p, v=v: eq(add(p.t(s), v.t(s)), end)) for p in lc.ptrs(blk) for v in lc.ints()]
    return f


class CountLabels(Contract):
    """number of labels of a name; an error exactly when the name is not terminated within its length or has an illegal label"""
    name = "wdns_count_labels"

    def setup(self, c):
        b, dat, ln = name_arg(c, "name")
        nl = c.st.new("nl", "arg", 8)
        return [Ptr(b, 0), Ptr(nl, 0)]

    def bind(self, c):
        nm, nl = c.args
        c.len = zext(c.rd(nm, 1), 8, 64)
        c.data = c.rdp(nm, 8)
        B, N = reader(c, c.data.blk, c.data.off), bv(c.len, 64)
        c.lab = shared(c, "lab", c.data.blk, (c.data.off, N), lambda: lab_spec(B, N))

    def requires(self, c):
        return [("the name's data holds len octets", land(ule(c.len, c.size(c.data.blk)), ule(c.data.off, sub(c.size(c.data.blk), c.len))))]

    def footprint(self, c):
        nl = c.args[1]
        return [(nl.blk, nl.off, add(nl.off, 8), "cell")]

    def hints(self, c):
        d = c.data
        ok, cnt = c.lab
        return dict(cands=[tail("ok", ok, [0], [P_(d.blk, d.off)]), tail("cnt", cnt, [0, 0], [P_(d.blk, d.off), I_]),
                           half_cands(d.blk, d.off)])

    def outcomes(self, c):
        nm, nl = c.args
        ok, cnt = c.lab

        def good(c, m):
            m.ret_is(0)
            m.when(ok(0))
            m.cell_is(nl.blk, nl.off, 8, cnt(0, 0), "number of labels")
            m.ensure(z3.ULE(cnt(0, 0), 127), "at most 127 labels")

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(ok(0)))
        return [good, bad]


def half_cands(blk, base):
    """every label takes at least two octets"""
    def f(lc):
        return [("2*%s<=%s" % (v.name, p.name), lambda s, p=p, v=v: land(ule(v.t(s), 1 << 40), ule(mul(v.t(s), 2), sub(p.t(s), base)))) for p in lc.ptrs(blk) for v in lc.ints()]
    return f


def lab_spec(B, N):
    ok = SpecFn("lab_ok", [BV64, z3.BoolSort()], lambda i: z3.If(z3.UGE(i, N), False, z3.If(B(i) == 0, True, z3.If(
        z3.And(z3.ULE(B(i), 63), z3.ULE(i + 1 + Z64(B(i)), N)), ok(i + 1 + Z64(B(i))), False))))
    cnt = SpecFn("lab_cnt", [BV64, BV64, BV64], lambda i, a: z3.If(z3.UGE(i, N), a, z3.If(B(i) == 0, a, z3.If(
        z3.And(z3.ULE(B(i), 63), z3.ULE(i + 1 + Z64(B(i)), N)), cnt(i + 1 + Z64(B(i)), a + 1), a))))
    return ok, cnt


class LeftChop(Contract):
    """removes the leftmost label; the root stays the root"""
    name = "wdns_left_chop"

    def setup(self, c):
        b, dat, ln = name_arg(c, "name")
        o = struct_ptr(c, "chop", 16, [(0, 1, fresh("ol", 8))], [(8, NULL)])
        return [Ptr(b, 0), Ptr(o, 0)]

    def bind(self, c):
        nm, o = c.args
        c.len = zext(c.rd(nm, 1), 8, 64)
        c.data = c.rdp(nm, 8)

    requires = CountLabels.requires

    def footprint(self, c):
        o = c.args[1]
        return [(o.blk, o.off, add(o.off, 1), "cell"), (o.blk, add(o.off, 8), add(o.off, 16), "ptr")]

    def outcomes(self, c):
        nm, o = c.args
        d = c.data
        l0 = Z64(reader(c, d.blk, d.off)(0))
        root = land(eq(c.len, 1), eq(l0, 0))

        def is_root(c, m):
            m.ret_is(0)
            m.when(root)
            m.cell_is(o.blk, o.off, 1, 1, "length of the root")
            m.ptr_is(o.blk, add(o.off, 8), d)

        def chop(c, m):
            m.ret_is(0)
            m.when(land(lnot(eq(c.len, 0)), lnot(root), ult(l0, c.len)))
            m.cell_is(o.blk, o.off, 1, trunc(sub(c.len, add(l0, 1)), 64, 8), "length without the first label")
            m.ptr_is(o.blk, add(o.off, 8), Ptr(d.blk, add(d.off, add(l0, 1)), d.gen))

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lor(eq(c.len, 0), ule(c.len, l0)))
            m.keep(o.blk, o.off, 1) if False else None
        return [is_root, chop, bad]


class ReverseName(Contract):
    """labels in reverse order, terminated by the root; an error when the labels do not fit"""
    name = "wdns_reverse_name"

    def setup(self, c):
        n = fresh("n", 64)
        return [Ptr(c.st.new("nm", "arg", n), 0), n, Ptr(c.st.new("rev", "arg", n), 0)]

    def bind(self, c):
        p, n, r = c.args
        if p.blk is r.blk:
            raise Unsupported("overlapping name buffers")
        B, N = reader(c, p.blk, p.off), bv(n, 64)
        c.ok = SpecFn("rv_ok", [BV64, z3.BoolSort()], lambda i: z3.If(B(i) == 0, True, z3.If(z3.UGE(i + 1 + Z64(B(i)), N), False, c.ok(i + 1 + Z64(B(i))))))
        c.out = SpecFn("rv_out", [BV64, BV64, BV8], lambda i, k: z3.If(z3.Or(B(i) == 0, z3.UGE(i + 1 + Z64(B(i)), N)), V8(0), z3.If(
            z3.UGE(k, N - 1 - (i + 1 + Z64(B(i)))), B(i + (k - (N - 1 - (i + 1 + Z64(B(i)))))), c.out(i + 1 + Z64(B(i)), k))))

    def requires(self, c):
        p, n, r = c.args
        return [("name has len octets", land(ule(n, c.size(p.blk)), ule(p.off, sub(c.size(p.blk), n)))),
                ("room for len octets", land(ule(n, c.size(r.blk)), ule(r.off, sub(c.size(r.blk), n))))]

    def footprint(self, c):
        p, n, r = c.args
        return [(r.blk, r.off, add(r.off, n))]

    def hints(self, c):
        p, n, r = c.args
        N = bv(n, 64)

        def vals(blk, lc):
            if blk is r.blk:
                return [lambda s: (lambda i: c.out(0, sub(i, r.off)))]

        def g(lc):
            K = bv(sub(lc.E.K, r.off), 64)
            o = []
            for P in lc.ptrs(p.blk):
                pos = lambda s, P=P: bv(sub(P.t(s), p.off), 64)
                o.append(("out(%s)" % P.name, lambda s, pos=pos: z3.Implies(z3.And(z3.ULT(K, N - 1 - pos(s))), c.out(V(0), K) == c.out(pos(s), K))))
            for P in lc.ptrs(p.blk):
                for Q in lc.ptrs(r.blk):
                    o.append(("pos(%s,%s)" % (P.name, Q.name), lambda s, P=P, Q=Q: eq(add(sub(P.t(s), p.off), sub(Q.t(s), r.off)), sub(n, 1))))
            return o
        return dict(cands=[tail("ok", c.ok, [0], [P_(p.blk, p.off)]), g], vals=[vals], terms=[n], ptrs=[r, p])

    def outcomes(self, c):
        p, n, r = c.args

        def good(c, m):
            m.ret_is(0)
            m.when(land(ult(0, n), c.ok(0)))
            m.region(r.blk, r.off, add(r.off, n), lambda i: z3.If(bv(sub(i, r.off), 64) == bv(n, 64) - 1, V8(0), c.out(0, sub(i, r.off))), "labels in reverse order")

        def bad(c, m):
            x = m.ret_any()
            m.when(lnot(eq(x, 0, 32)))
            m.when(lnot(land(ult(0, n), c.ok(0))))
        return [good, bad]


class DowncaseName(Contract):
    """every ASCII capital among the name's octets becomes lower case, nothing else changes"""
    name = "wdns_downcase_name"

    def setup(self, c):
        b, dat, ln = name_arg(c, "name")
        return [Ptr(b, 0)]

    def bind(self, c):
        nm = c.args[0]
        c.len = zext(c.rd(nm, 1), 8, 64)
        c.data = c.rdp(nm, 8)

    def requires(self, c):
        if c.data.blk is None or c.data.blk is POISON:
            return [("null data only with length 0", eq(c.len, 0))]
        return CountLabels.requires(self, c)

    def footprint(self, c):
        d = c.data
        if d.blk is None:
            return []
        return [(d.blk, d.off, add(d.off, c.len))]

    def hints(self, c):
        d = c.data
        B = reader(c, d.blk)

        def vals(blk, lc):
            if blk is d.blk:
                return [lambda s: (lambda i: lower(B(i)))]
        return dict(vals=[vals], terms=[c.len], ptrs=[d, Ptr(d.blk, add(d.off, c.len), d.gen)], cands=[rest_cands(d.blk, add(d.off, c.len))])

    def outcomes(self, c):
        d = c.data

        def o(c, m):
            if d.blk is not None:
                B = reader(c, d.blk)
                m.region(d.blk, d.off, add(d.off, c.len), lambda i: lower(B(i)), "capitals lowered, all else kept")
        return [o]


def lower(b):
    b = bv(b, 8)
    return z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b + 32, b)


class CompareRR(Contract):
    """true exactly when type, class and length are equal and the names are equal ignoring ASCII case"""
    name = "wdns_compare_rr_rrset"

    def setup(self, c):
        def rr(tag, off, size):
            ln = fresh(tag + "_nlen", 8)
            dat = c.st.new(tag + "_name", "arg", zext(ln, 8, 64))
            return struct_ptr(c, tag, size, [(4, 2, fresh(tag + "_type", 16)), (6, 2, fresh(tag + "_class", 16)), (off, 1, ln)], [(off + 8, Ptr(dat, 0))])
        return [Ptr(rr("rr", 8, 32), 0), Ptr(rr("rrset", 16, 40), 0)]

    def bind(self, c):
        a, b = c.args
        c.la, c.lb = zext(c.rd(a, 1, 8), 8, 64), zext(c.rd(b, 1, 16), 8, 64)
        c.da, c.db = c.rdp(a, 16), c.rdp(b, 24)
        c.tc = land(eq(c.rd(a, 2, 4), c.rd(b, 2, 4), 16), eq(c.rd(a, 2, 6), c.rd(b, 2, 6), 16))

    def requires(self, c):
        return [("first name has len octets", ule(c.la, sub(c.size(c.da.blk), c.da.off))), ("", ule(c.da.off, c.size(c.da.blk))),
                ("second name has len octets", ule(c.lb, sub(c.size(c.db.blk), c.db.off))), ("", ule(c.db.off, c.size(c.db.blk)))]

    def outcomes(self, c):
        A, B = reader(c, c.da.blk, c.da.off), reader(c, c.db.blk, c.db.off)
        same = land(c.tc, eq(c.la, c.lb))

        def yes(c, m):
            m.ret_is(True)
            m.ensure(same, "type, class and length equal")
            m.forall(lambda k: z3.Implies(z3.ULT(bv(k, 64), bv(c.la, 64)), lower(A(k)) == lower(B(k))), "names equal ignoring case")

        def no(c, m):
            m.ret_is(False)
            if m.verify:
                if c.E.feasible(m.st, [same]):
                    # witness: the position memcmp reports
                    ws = [w[1] for w in m.st.notes.get("memcmp", [])]
                    m.ensure(lor(lnot(same), *[land(ult(w, c.la), lnot(eq(lower(A(w)), lower(B(w)), 8))) for w in ws]), "some octet differs")
            else:
                w = fresh("differs_at", 64)
                m.ensure(lor(lnot(same), land(ult(w, c.la), lnot(eq(lower(A(w)), lower(B(w)), 8)))), "some octet differs")
        return [yes, no]


CONTRACTS = [UnpackName(), CopyUname(), SkipName(), LenUname(), CountLabels(), LeftChop(), ReverseName(), DowncaseName(), CompareRR()]
