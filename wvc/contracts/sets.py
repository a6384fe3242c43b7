"""RRsets: an array of pointers to record data, each a separate object (a family of objects indexed by the array position)."""
import z3
from term import *
from mem import *
from engine import Contract, Ctx, NULL, State, Unsupported, POISON
from common import *
from family import Family, SH
from msg import heap_or_null
from rdata import descr, down_family, down_layout
from names import lower

def family(c, tag, n, present=None, kind="arg"):
    """an array of n pointers to record data objects {length (16 bits), octets}, each a separate object"""
    arr = c.st.new(tag, kind, mul(n, 8))
    return Family(c.E, c.st, arr, n, tag, fresh_fn(tag, BV64, BV8), present)


def decided(x, v):
    x = z3.simplify(bv(x, 64))
    return z3.is_bv_value(x) and x.as_long() == v


class Obj:
    pass


def ser_spec(head, n, size, octet):
    """octet k of the serialization of elements i.. of which element i starts at o"""
    OUT = SpecFn("ser", [BV64, BV64, BV64, BV8], lambda i, o, k: z3.If(z3.ULT(i, n), z3.If(k == o, z3.Extract(7, 0, size(i)), z3.If(k == o + 1, z3.Extract(15, 8, size(i)),
                 z3.If(z3.ULT(k - o - 2, size(i)), octet(i, k - o - 2), OUT(i + 1, o + 2 + size(i), k)))), V8(0)))
    TOT = SpecFn("tot", [BV64, BV64], lambda i: z3.If(z3.ULT(i, n), 2 + size(i) + TOT(i + 1), V(0)))
    return OUT, TOT


def ser_octet(OUT, head, nl, Bn, fixed):
    """octet k of the whole serialization"""
    def octet(k):
        k = bv(k, 64)
        r = OUT(V(0), head, k)
        for j in range(9, -1, -1):
            r = z3.If(k == head - 10 + j, bv(fixed[j], 8), r)
        return z3.If(k == 0, z3.Extract(7, 0, bv(nl, 64)), z3.If(z3.ULT(k, 1 + bv(nl, 64)), Bn(k - 1), r))
    return octet


def deser_spec(B, S, head, n):
    """where element i of a serialized RRset starts, and whether elements i.. fit"""
    le = lambda p: z3.ZeroExt(48, z3.Concat(B(p + 1), B(p)))
    POS = SpecFn("pos", [BV64, BV64], lambda i: z3.If(i == 0, head, POS(i - 1) + 2 + le(POS(i - 1))))
    ok = lambda i: z3.And(z3.ULE(POS(i) + 2, S), z3.ULE(POS(i) + 2 + le(POS(i)), S))
    OK = SpecFn("ok", [BV64, z3.BoolSort()], lambda i: z3.If(z3.ULT(i, n), z3.And(ok(i), OK(i + 1)), z3.BoolVal(True)))
    return le, POS, OK


class Serialize(Contract):
    """size and octets of the serialized RRset: name length, name, type, class, TTL, count, then length and octets of each record data"""
    name = "wdns_serialize_rrset"
    variants = ("size and octets", "size only", "octets only")

    def setup(s, c):
        v = c.v.get("variant") or s.variants[0]
        n = fresh("n", 16)
        fam = family(c, "rd", zext(n, 16, 64))
        ln = fresh("nl", 8)
        nd = c.st.new("name", "arg", zext(ln, 8, 64))
        rr = struct_ptr(c, "rrset", 40, [(0, 4, fresh("ttl", 32)), (4, 2, fresh("type", 16)), (6, 2, fresh("class", 16)), (8, 2, n), (16, 1, ln)], [(24, Ptr(nd, 0)), (32, Ptr(fam.arr, 0))])
        sz = Ptr(c.st.new("sz", "arg", 8), 0) if v != "octets only" else NULL
        buf = Ptr(c.st.new("buf", "arg", fresh("room", 64)), 0) if v != "size only" else NULL
        return [Ptr(rr, 0), buf, sz]

    def bind(s, c):
        rr, buf, sz = c.args
        arr = c.rdp(rr, 32)
        fam = c.fam = arr.blk.ghost.get("family") if arr.blk not in (None, POISON) else None
        if fam is None or not isc(arr.off) or arr.off != 0:
            raise Unsupported("serialize: the array of record data")
        c.n = zext(c.rd(rr, 2, 8), 16, 64)
        c.nl = zext(c.rd(rr, 1, 16), 8, 64)
        nd = c.rdp(rr, 24)
        Bn = reader(c, nd.blk, nd.off)
        n = bv(c.n, 64)
        bound = lambda i: z3.Implies(z3.ULE(i, n), z3.ULE(TOT(i), (n - i) << 17))
        c.head = 11 + bv(c.nl, 64)
        OUT, TOT = c.OUT, c.TOT = ser_spec(c.head, n, fam.len, fam.octet)
        if c.verifying:
            induct(c, "the total length is bounded", (64,), bound, lambda i: [(z3.ULT(i, n), (i + 1,))], lambda i: z3.If(z3.ULT(i, n), n - i, V(0)),
                   assume=[z3.ULE(n, V(65535))])
        TOT.lemma = lambda app, i: [bound(i)]
        c.total = c.head + TOT(V(0))
        le = lambda off, w: [c.E.rd(c.pre, Ptr(rr.blk, add(rr.off, off + j)), 1) for j in range(w)]
        fixed = le(4, 2) + le(6, 2) + le(0, 4) + le(8, 2)
        c.octet = ser_octet(OUT, c.head, c.nl, Bn, fixed)

    def requires(s, c):
        rr, buf, sz = c.args
        r = []
        if buf.blk is not None:
            r.append(("the buffer has the size the call computes", land(ule(c.total, c.size(buf.blk)), ule(buf.off, sub(c.size(buf.blk), c.total)), ule(c.size(buf.blk), 1 << 48))))
        return r

    def footprint(s, c):
        rr, buf, sz = c.args
        r = []
        if sz.blk is not None:
            r.append((sz.blk, sz.off, add(sz.off, 8), "cell"))
        if buf.blk is not None:
            r.append((buf.blk, buf.off, add(buf.off, c.total)))
        return r

    def hints(s, c):
        rr, buf, sz = c.args
        K = c.E.K
        n = bv(c.n, 64)

        def cands(lc):
            out = []
            for i in lc.ints():
                if i.w <= 8:
                    continue
                I = lambda st, i=i: bv(i.t(st), 64)
                out.append((i.name + "<=n", lambda st, I=I: z3.ULE(I(st), n)))
                for o in [v for v in lc.ints() if v is not i and v.w == 64]:
                    out.append(("tot(%s,%s)" % (i.name, o.name), lambda st, I=I, o=o: o.t(st) + c.TOT(I(st)) == c.total))
                if buf.blk is not None:
                    for p in lc.ptrs(buf.blk):
                        O = lambda st, p=p: bv(sub(p.t(st), buf.off), 64)
                        out.append(("pos(%s,%s)" % (i.name, p.name), lambda st, I=I, O=O: O(st) + c.TOT(I(st)) == c.total))
                        out.append(("out(%s,%s)" % (i.name, p.name), lambda st, I=I, O=O: z3.Implies(z3.ULE(O(st), K - bv(buf.off, 64)),
                                    c.OUT(V(0), c.head, K - bv(buf.off, 64)) == c.OUT(I(st), O(st), K - bv(buf.off, 64)))))
            return out

        def vals(b, lc):
            if b is buf.blk:
                return [lambda st, v=v: (lambda i: c.octet(sub(i, buf.off)), lambda i: ult(sub(i, buf.off), sub(v.t(st), buf.off))) for v in lc.ptrs(buf.blk)]
        return dict(cands=[cands], vals=[vals], terms=[c.n])

    def outcomes(s, c):
        rr, buf, sz = c.args

        def o(c, m):
            m.ret_is(0)
            if sz.blk is not None:
                m.cell_is(sz.blk, sz.off, 8, c.total, "the size of the serialized form")
            if buf.blk is not None:
                m.region(buf.blk, buf.off, add(buf.off, c.total), lambda k: c.octet(sub(k, buf.off)), "the octets of the serialized form")
        return [o]


class DowncaseRrset(Contract):
    """the owner name and the names inside every record data are lowered (the canonical form of RFC 4034, 6.2); nothing else changes.  Fails
    exactly if some record data does not follow its type's layout"""
    name = "wdns_downcase_rrset"

    def setup(s, c):
        n = fresh("n", 16)
        fam = family(c, "rd", zext(n, 16, 64))
        ln = fresh("nl", 8)
        nd = c.st.new("name", "arg", zext(ln, 8, 64))
        rr = struct_ptr(c, "rrset", 40, [(4, 2, fresh("type", 16)), (6, 2, fresh("class", 16)), (8, 2, n), (16, 1, ln)], [(24, Ptr(nd, 0)), (32, Ptr(fam.arr, 0))])
        return [Ptr(rr, 0)]

    def bind(s, c):
        rr, = c.args
        arr = c.rdp(rr, 32)
        fam = c.fam = arr.blk.ghost.get("family") if arr.blk not in (None, POISON) else None
        if fam is None or not isc(arr.off) or arr.off != 0:
            raise Unsupported("downcase: the array of record data")
        c.n = zext(c.rd(rr, 2, 8), 16, 64)
        c.nl = zext(c.rd(rr, 1, 16), 8, 64)
        c.nd = c.rdp(rr, 24)
        n = bv(c.n, 64)
        d = descr(c)
        sp = down_family(fam, d)
        tp0, kn, lay, rc = down_layout(c, d, c.rd(rr, 2, 4), c.rd(rr, 2, 6))
        T0 = bv(tp0, 64)
        end = lambda i: fam.at(i, 2) + fam.len(i)
        ok = lambda i: z3.Or(z3.Not(zb(lay)), sp.at(end(i)).OKf(T0, fam.at(i, 2)))
        ALL = c.ALL = SpecFn("all_ok", [BV64, z3.BoolSort()], lambda i: z3.If(z3.ULT(i, n), z3.And(ok(i), ALL(i + 1)), z3.BoolVal(True)))

        def new(k):
            k = bv(k, 64)
            i, l = z3.LShR(k, SH), z3.ZeroExt(32, z3.Extract(SH - 1, 0, k))
            inside = z3.And(zb(lay), z3.ULE(V(2), l), z3.ULT(l, fam.len(i) + 2))
            return z3.If(z3.And(inside, sp.at(end(i)).NMf(T0, fam.at(i, 2), k)), lower(fam.fn(k)), fam.fn(k))
        c.new = new
        c.top = n << SH

    def requires(s, c):
        return []

    def footprint(s, c):
        return [(c.nd.blk, c.nd.off, add(c.nd.off, c.nl)), (c.fam.blk, 0, c.top)]

    def hints(s, c):
        n = bv(c.n, 64)

        def cands(lc):
            out = []
            for i in lc.ints():
                if i.w > 8:
                    I = lambda st, i=i: bv(i.t(st), 64)
                    out.append((i.name + "<=n", lambda st, I=I: z3.ULE(I(st), n)))
                    out.append(("all(%s)" % i.name, lambda st, I=I: c.ALL(V(0)) == c.ALL(I(st))))
            return out

        def vals(b, lc):
            if b is c.fam.blk:
                return [lambda st: (lambda k: c.new(k))]

        def ranges(b, lc):
            if b is c.fam.blk:
                return [(i.name, lambda st: 0, lambda st, i=i: bv(i.t(st), 64) << SH) for i in lc.ints() if i.w > 8]
            return []
        return dict(lean=True, early=True, cands=[cands], vals=[vals], ranges=[ranges], terms=[c.n])

    def outcomes(s, c):
        B = reader(c, c.nd.blk)
        hi = add(c.nd.off, c.nl)

        def good(c, m):
            m.ret_is(0)
            m.when(c.ALL(V(0)))
            m.region(c.nd.blk, c.nd.off, hi, lambda i: lower(B(i)), "the owner name is lowered")
            m.region(c.fam.blk, 0, c.top, c.new, "capitals in the names of every record data lowered, all else kept")

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(c.ALL(V(0))))
            m.region(c.nd.blk, c.nd.off, hi, lambda i: lower(B(i)), "the owner name is lowered")
            m.forall(lambda k: implies(ult(k, c.top), lor(eq(m.byte(c.fam.blk, k), c.fam.fn(bv(k, 64)), 8), eq(m.byte(c.fam.blk, k), lower(c.fam.fn(bv(k, 64))), 8))),
                     "at most capitals are lowered")
        return [good, bad]


class ClearRrset(Contract):
    """releases every record data, the owner name and the array, each exactly once, and forgets them"""
    name = "wdns_clear_rrset"
    variants = ("both", "name only", "array only", "neither")

    def setup(s, c):
        v = c.v.get("variant") or s.variants[0]
        n = fresh("n", 16) if v in ("both", "array only") else 0
        nm, arr = NULL, NULL
        if v in ("both", "name only"):
            nm = Ptr(c.st.new("name", "heap", fresh("nlen", 64)), 0)
            c.E.mayfree.add(nm.blk)
        if v in ("both", "array only"):
            fam = family(c, "rd", zext(n, 16, 64), fresh_fn("present", BV64, z3.BoolSort()), "heap")
            c.E.mayfree.add(fam.arr)
            arr = Ptr(fam.arr, 0)
        rr = struct_ptr(c, "rrset", 40, [(8, 2, n), (16, 1, fresh("nl", 8))], [(24, nm), (32, arr)])
        return [Ptr(rr, 0)]

    def bind(s, c):
        rr, = c.args
        c.n = zext(c.rd(rr, 2, 8), 16, 64)
        c.nm, c.arr = c.rdp(rr, 24), c.rdp(rr, 32)
        c.fam = c.arr.blk.ghost.get("family") if c.arr.blk not in (None, POISON) else None
        if c.fam is None and c.arr.blk is not None:
            raise Unsupported("clear: the array of record data")

    def requires(s, c):
        r = [("the name is null or an allocation", heap_or_null(c, c.nm)), ("the array is null or an allocation", heap_or_null(c, c.arr))]
        if c.fam is None:
            return r + [("no record data without an array", eq(c.n, 0))]
        k = fresh("k", 64)
        f = lambda b: read_byte(c.st.mem[b], k, c.E.decide(c.st))
        return r + [("the array has n entries", eq(c.n, c.fam.n)),
                    ("every entry is null or a live element, and every live element has its entry",
                     implies(ult(k, c.n), eq(f(c.fam.present), f(c.fam.alive), 8)))]

    def footprint(s, c):
        rr, = c.args
        a = lambda k: add(rr.off, k)
        r = [(rr.blk, a(8), a(10), "cell"), (rr.blk, a(24), a(32), "ptr"), (rr.blk, a(32), a(40), "ptr")]
        return r + ([(c.fam.present, 0, c.n), (c.fam.alive, 0, c.n)] if c.fam else [])

    def hints(s, c):
        n = bv(c.n, 64)

        def cands(lc):
            return [(i.name + "<=n", lambda st, i=i: z3.ULE(bv(i.t(st), 64), n)) for i in lc.ints() if i.w > 8]

        def vals(b, lc):
            if c.fam and b in (c.fam.present, c.fam.alive):
                return [lambda st: (lambda k: 0)]

        def ranges(b, lc):
            if c.fam and b in (c.fam.present, c.fam.alive):
                return [(i.name, lambda st: 0, lambda st, i=i: bv(i.t(st), 64)) for i in lc.ints() if i.w > 8]
            return []
        return dict(lean=True, early=True, cands=[cands], vals=[vals], ranges=[ranges], terms=[c.n])

    def outcomes(s, c):
        rr, = c.args

        def o(c, m):
            a = lambda k: add(rr.off, k)
            for p in (c.nm, c.arr):
                if p.blk is not None:
                    m.freed(p.blk)
            if c.fam:
                m.region(c.fam.alive, 0, c.n, lambda k: 0, "every record data was released")
                m.havoc(c.fam.present, 0, c.n)
            m.cell_is(rr.blk, a(8), 2, 0, "no record data left")
            m.ptr_is(rr.blk, a(24), NULL, "the name is forgotten")
            m.ptr_is(rr.blk, a(32), NULL, "the array is forgotten")
        return [o]


class Deserialize(Contract):
    """accepts exactly the octet strings that start with a serialized RRset, and rebuilds it: the header fields, the name and each record data
    in an allocation of its own.  Otherwise everything allocated is released and the RRset holds nothing"""
    name = "wdns_deserialize_rrset"

    def setup(s, c):
        rr = c.st.new("rrset", "arg", 40)
        n = fresh("sz", 64)
        return [Ptr(rr, 0), Ptr(c.st.new("buf", "arg", n), 0), n]

    def bind(s, c):
        rr, buf, sz = c.args
        B = reader(c, buf.blk, buf.off)
        S = c.sz = bv(sz, 64)
        c.nl = z3.ZeroExt(56, B(V(0)))
        head = c.head = 11 + c.nl
        c.B = B
        n = c.n = z3.ZeroExt(48, z3.Concat(B(head - 1), B(head - 2)))
        le, POS, OK = c.le, c.POS, c.OK = deser_spec(B, S, head, n)
        c.accept = z3.And(z3.UGE(S, 1), z3.UGE(S, head), OK(V(0)))
        c.elem = lambda k: B(POS(z3.LShR(k, SH)) + (k & bv((1 << SH) - 1, 64)))
        c.inside = lambda k: z3.ULT(k & bv((1 << SH) - 1, 64), 2 + le(POS(z3.LShR(k, SH))))

    def requires(s, c):
        rr, buf, sz = c.args
        return [("sz octets are readable", ule(sz, sub(c.size(buf.blk), buf.off))), ("sz is the size of an object", ult(sz, 1 << 48))]

    def footprint(s, c):
        rr, = c.args[:1]
        a = lambda k: add(rr.off, k)
        return [(rr.blk, a(0), a(40))]

    def hints(s, c):
        rr, buf, sz = c.args
        n = c.n
        fam = lambda b: b.ghost.get("part of")

        def cands(lc):
            out = []
            for i in lc.ints():
                if i.w <= 8:
                    continue
                I = lambda st, i=i: bv(i.t(st), 64)
                out.append((i.name + "<=n", lambda st, I=I: z3.ULE(I(st), n)))
                out.append(("ok(%s)" % i.name, lambda st, I=I: c.OK(V(0)) == c.OK(I(st))))
                for o in [v for v in lc.ints() if v is not i and v.w == 64]:
                    out.append(("pos(%s,%s)" % (i.name, o.name), lambda st, I=I, o=o: o.t(st) == c.POS(I(st))))
                out.append((i.name + "<=sz", lambda st, I=I: z3.ULE(I(st), c.sz)))
                for p in lc.ptrs(buf.blk):
                    out.append(("pos(%s,%s)" % (i.name, p.name), lambda st, I=I, p=p: bv(sub(p.t(st), buf.off), 64) == c.POS(I(st))))
            return out

        def vals(b, lc):
            f = fam(b)
            if f is None:
                return None
            if b is f.blk:
                return [lambda st: (c.elem, c.inside)]
            if b in (f.present, f.alive):
                return [lambda st: (lambda k: 1)]

        def ranges(b, lc):
            f = fam(b)
            if f is None or b is f.arr:
                return []
            sh = SH if b is f.blk else 3 if b is f.sizes else 0
            return [(i.name, lambda st: 0, lambda st, i=i: bv(i.t(st), 64) << sh) for i in lc.ints() if i.w > 8 and i.t0() is not None and decided(i.t0(), 0)]
        return dict(lean=True, early=True, cands=[cands], vals=[vals], ranges=[ranges], terms=[n], families=lambda st: n)

    def outcomes(s, c):
        rr, buf, sz = c.args
        a = lambda k: add(rr.off, k)
        cat = lambda p, w: z3.Concat(*[c.B(p + (w - 1 - j)) for j in range(w)]) if w > 1 else c.B(p)

        def good(c, m):
            m.ret_is(0)
            m.when(c.accept)
            m.cell_is(rr.blk, a(16), 1, c.B(V(0)), "the length of the name")
            m.cell_is(rr.blk, a(4), 2, cat(1 + c.nl, 2), "the type")
            m.cell_is(rr.blk, a(6), 2, cat(3 + c.nl, 2), "the class")
            m.cell_is(rr.blk, a(0), 4, cat(5 + c.nl, 4), "the TTL")
            m.cell_is(rr.blk, a(8), 2, cat(9 + c.nl, 2), "the number of record data")
            nm = m.heap(rr.blk, a(24), "the name", c.nl)
            m.region(nm, 0, c.nl, lambda k: c.B(1 + bv(k, 64)), "the octets of the name")
            arr = m.heap(rr.blk, a(32), "the array of record data", bv(c.n, 64) << 3)
            f = arr.ghost.get("family")
            if not m.verify or f is None:
                raise Unsupported("deserialize: the array of record data")
            m.region(f.present, 0, c.n, lambda k: 1, "every entry is filled")
            m.region(f.alive, 0, c.n, lambda k: 1, "every record data is a live allocation of its own")
            m.forall(lambda k: implies(land(ult(k, c.n << SH), c.inside(bv(k, 64))), eq(m.byte(f.blk, k), c.elem(bv(k, 64)), 8)), "length and octets of every record data")

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(c.accept))
            m.cell_is(rr.blk, a(8), 2, 0, "no record data")
            m.ptr_is(rr.blk, a(24), NULL, "no name")
            m.ptr_is(rr.blk, a(32), NULL, "no array")
        return [good, bad]


class RrsetRoundTrip(Contract):
    """what wdns_serialize_rrset is specified to write for an RRset is accepted by the specification of wdns_deserialize_rrset, at exactly that
    length and no shorter one, and gives back the same RRset; what wdns_deserialize_rrset accepts is serialized to the same octets again"""
    name = "lemma_rrset_roundtrip"

    def lemma_run(s, E, C):
        s.read_back(E)
        s.write_again(E)

    def tools(s, E, n):
        """induction downwards from n / upwards from 0, and plain goals"""
        c = Obj()
        c.E, c.pre = E, State()
        down = lambda i, *x: z3.If(z3.ULT(i, n), n - i, V(0))
        up = lambda i, *x: i
        prev = lambda *x: [(x[0] != 0, (x[0] - 1,) + x[1:])]
        nxt = lambda *x: [(z3.ULT(x[0], n), (x[0] + 1,) + x[1:])]

        def goal(name, g, *asm):
            st = State()
            st.assume([zb(a) for a in asm])
            E.oblig(st, "lemma", g, 0, name)
        return (lambda name, w, P: induct(c, name, w, P, nxt, down)), (lambda name, w, P: induct(c, name, w, P, prev, up)), goal

    def read_back(s, E):
        nl, n16 = fresh("nl", 8), fresh("n", 16)
        NL, n = z3.ZeroExt(56, nl), z3.ZeroExt(48, n16)
        Lf, Of, Nf = fresh_fn("len", BV64, z3.BitVecSort(16)), z3.Function("rd_octets", BV64, BV64, BV8), fresh_fn("name", BV64, BV8)
        L = lambda i: z3.ZeroExt(48, Lf(i))
        fixed = [fresh("f%d" % j, 8) for j in range(8)] + [z3.Extract(7, 0, n16), z3.Extract(15, 8, n16)]
        head = 11 + NL
        OUT, TOT = ser_spec(head, n, L, lambda i, k: Of(i, k))
        octet = ser_octet(OUT, head, NL, lambda k: Nf(k), fixed)
        total = head + TOT(V(0))
        START = SpecFn("start", [BV64, BV64], lambda i: z3.If(i == 0, head, START(i - 1) + 2 + L(i - 1)))
        down, up, goal = s.tools(E, n)
        bound = lambda i: z3.Implies(z3.ULE(i, n), z3.ULE(TOT(i), (n - i) << 17))
        down("the total length is bounded", (64,), bound)
        TOT.lemma = lambda app, i: [bound(i)]
        rest = lambda i: z3.Implies(z3.ULE(i, n), z3.And(START(i) + TOT(i) == total, z3.ULE(head, START(i)), z3.ULE(START(i), head + (i << 17))))
        up("the elements lie behind one another", (64,), rest)
        START.lemma = lambda app, i: [rest(i)]
        cut = lambda i, k: z3.Implies(z3.And(z3.ULE(i, n), z3.ULE(START(i), k)), OUT(V(0), head, k) == OUT(i, START(i), k))
        up("the octets from an element on", (64, 64), cut)
        le, POS, OK = deser_spec(octet, total, head, n)
        at = lambda i: [cut(i, START(i)), cut(i, START(i) + 1), rest(i)]

        # reading back what was written
        i, k = fresh("i", 64), fresh("k", 64)
        inb = z3.ULT(i, n)
        goal("the length of every element is found", z3.Implies(inb, le(START(i)) == L(i)), *at(i))
        found = lambda i: z3.Implies(z3.ULT(i, n), le(START(i)) == L(i))
        START.lemma = lambda app, i: [rest(i), found(i)]
        same = lambda i: z3.Implies(z3.ULE(i, n), POS(i) == START(i))
        up("every element is found where it was written", (64,), same)
        goal("the octets of every element are found", octet(START(i) + 2 + k) == Of(i, k), inb, z3.ULT(k, L(i)), cut(i, START(i) + 2 + k))
        POS.lemma = lambda app, i: [same(i), rest(i), rest(i + 1), found(i), bound(i + 1)]
        fits = lambda i: z3.Implies(z3.ULE(i, n), OK(i))
        down("every element fits", (64,), fits)
        goal("the header is found", z3.And(octet(V(0)) == nl, le(head - 2) == n, *[octet(head - 10 + j) == fixed[j] for j in range(8)]))
        goal("the name is found", octet(1 + k) == Nf(k), z3.ULT(k, NL))
        # nothing shorter is accepted
        S = fresh("shorter", 64)
        le2, POS2, OK2 = deser_spec(octet, S, head, n)
        up("cut positions", (64,), lambda i: z3.Implies(z3.ULE(i, n), POS2(i) == START(i)))
        POS2.lemma = lambda app, i: [z3.Implies(z3.ULE(i, n), POS2(i) == START(i)), rest(i), rest(i + 1), found(i)]
        ends = lambda i: z3.Implies(z3.And(z3.ULE(i, n), z3.ULE(POS2(i), S), OK2(i)), z3.ULE(total, S))
        down("an accepted prefix holds every element", (64,), ends)
        goal("no shorter prefix is accepted", z3.Not(z3.And(z3.UGE(S, 1), z3.UGE(S, head), OK2(V(0)))), z3.ULT(S, total), ends(V(0)))

    def write_again(s, E):
        Bf = fresh_fn("wire", BV64, BV8)
        B = lambda k: Bf(bv(k, 64))
        head = 11 + z3.ZeroExt(56, B(V(0)))
        n = z3.ZeroExt(48, z3.Concat(B(head - 1), B(head - 2)))
        S = fresh("sz", 64)
        down, up, goal = s.tools(E, n)
        k = fresh("k", 64)
        le, POS, OK = deser_spec(B, S, head, n)
        OUT, TOT = ser_spec(head, n, lambda i: le(POS(i)), lambda i, k: B(POS(i) + 2 + k))
        octet = ser_octet(OUT, head, z3.ZeroExt(56, B(V(0))), lambda k: B(1 + k), [B(head - 10 + j) for j in range(10)])
        lens = lambda i: z3.Implies(z3.ULE(i, n), z3.ULE(TOT(i), (n - i) << 17))
        down("the total length of what was read is bounded", (64,), lens)
        TOT.lemma = lambda app, i: [lens(i)]
        posb = lambda i: z3.Implies(z3.ULE(i, n), z3.And(z3.ULE(head, POS(i)), z3.ULE(POS(i), head + (i << 17))))
        up("positions are bounded", (64,), posb)
        POS.lemma = lambda app, i: [posb(i)]
        again = lambda i, k: z3.Implies(z3.And(z3.ULE(i, n), z3.ULE(POS(i), k), z3.ULT(k, POS(i) + TOT(i))), OUT(i, POS(i), k) == B(k))
        down("the elements are written as they were read", (64, 64), again)
        goal("the same octets are written again", octet(k) == B(k), z3.ULT(k, head + TOT(V(0))), again(V(0), k))
        inside = lambda i: z3.Implies(z3.And(z3.ULE(i, n), z3.ULE(POS(i), S), OK(i)), z3.ULE(POS(i) + TOT(i), S))
        down("what was read lies inside", (64,), inside)


CONTRACTS = [Serialize(), DowncaseRrset(), ClearRrset(), Deserialize(), RrsetRoundTrip()]
