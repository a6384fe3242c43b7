"""Contracts of the message-level functions."""
import z3
from term import *
from mem import *
from engine import Contract, Ctx, NULL, Unsupported, POISON
from common import *


def be(bs):
    return z3.Concat(*bs)


class ParseHeader(Contract):
    """the six 16-bit fields of the header, in network order, or an error when the data is shorter than a header"""
    name = "_wdns_parse_header"

    def setup(self, c):
        n = fresh("n", 64)
        p = c.st.new("pkt", "arg", n)
        return [Ptr(p, 0), n] + [Ptr(c.st.new("out%d" % i, "arg", 2), 0) for i in range(6)]

    def requires(self, c):
        p, n = c.args[:2]
        return [("the packet holds len octets", land(ule(n, c.size(p.blk)), ule(p.off, sub(c.size(p.blk), n))))]

    def footprint(self, c):
        return [(x.blk, x.off, add(x.off, 2), "cell") for x in c.args[2:]]

    def outcomes(self, c):
        p, n = c.args[:2]
        B = reader(c, p.blk, p.off)

        def good(c, m):
            m.ret_is(0)
            m.when(ule(12, n))
            for i, x in enumerate(c.args[2:]):
                m.cell_is(x.blk, x.off, 2, simp(be([B(2 * i), B(2 * i + 1)])), "field %d of the header" % i)

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(ult(n, 12))
            for x in c.args[2:]:
                m.keep(x.blk, x.off, 2)
        return [good, bad]


def heap_or_null(c, p):
    """the pointer is null or the start of a live allocation"""
    if p.blk is None:
        return True
    if p.blk is POISON:
        return False
    return land(p.blk.kind == "heap" and c.pre.live.get(p.blk) == "live" and p.gen == c.pre.gen[p.blk], eq(p.off, 0))


class ClearRR(Contract):
    """releases the owner name and the record data, each exactly once, and forgets them"""
    name = "wdns_clear_rr"
    variants = ("both", "no name", "no data", "neither")

    def setup(self, c):
        v = c.v["variant"]
        nm = Ptr(c.st.new("name", "heap", fresh("nlen", 64)), 0) if v in ("both", "no data") else NULL
        rd = Ptr(c.st.new("rdata", "heap", fresh("rdsize", 64)), 0) if v in ("both", "no name") else NULL
        for p in (nm, rd):
            if p.blk:
                c.E.mayfree.add(p.blk)
        return [Ptr(struct_ptr(c, "rr", 32, [(0, 4, fresh("ttl", 32)), (4, 2, fresh("type", 16)), (6, 2, fresh("class", 16)), (8, 1, fresh("nl", 8))],
                               [(16, nm), (24, rd)]), 0)]

    def bind(self, c):
        rr = c.args[0]
        c.nm, c.rd_ = c.rdp(rr, 16), c.rdp(rr, 24)

    def requires(self, c):
        return [("the name is null or an allocation", heap_or_null(c, c.nm)), ("the data is null or an allocation", heap_or_null(c, c.rd_)),
                ("name and data are different allocations", c.nm.blk is None or c.nm.blk is not c.rd_.blk)]

    def footprint(self, c):
        rr = c.args[0]
        return [(rr.blk, add(rr.off, o), add(rr.off, o + 8), "ptr") for o in (16, 24)]

    def outcomes(self, c):
        rr = c.args[0]

        def o(c, m):
            for off, p in ((16, c.nm), (24, c.rd_)):
                if p.blk is not None:
                    m.freed(p.blk)
                m.ptr_is(rr.blk, add(rr.off, off), NULL)
        return [o]


class ParseEdns(Contract):
    """the OPT record supplies EDNS presence, payload size, version, flags, options and the upper bits of the response code"""
    name = "_wdns_parse_edns"

    def setup(self, c):
        nm = Ptr(c.st.new("name", "heap", fresh("nlen", 64)), 0)
        rd = Ptr(c.st.new("rdata", "heap", fresh("rdsize", 64)), 0)
        c.E.mayfree.add(nm.blk)
        rr = struct_ptr(c, "rr", 32, [(0, 4, fresh("ttl", 32)), (4, 2, fresh("type", 16)), (6, 2, fresh("class", 16)), (8, 1, fresh("nl", 8))], [(16, nm), (24, rd)])
        m = struct_ptr(c, "m", 120, [(114, 2, fresh("flags", 16)), (116, 2, fresh("rcode", 16))], [])
        return [Ptr(m, 0), Ptr(rr, 0)]

    def bind(self, c):
        m, rr = c.args
        c.nm, c.rd_ = c.rdp(rr, 16), c.rdp(rr, 24)

    requires = ClearRR.requires

    def footprint(self, c):
        m, rr = c.args
        a = lambda k: add(m.off, k)
        return [(m.blk, a(96), a(97), "cell"), (m.blk, a(97), a(98), "cell"), (m.blk, a(98), a(100), "cell"), (m.blk, a(100), a(102), "cell"), (m.blk, a(104), a(112), "ptr"),
                (m.blk, a(116), a(118), "cell")] + [(rr.blk, add(rr.off, o), add(rr.off, o + 8), "ptr") for o in (16, 24)]

    def outcomes(self, c):
        M_, rr = c.args
        ttl, cl = bv(c.rd(rr, 4, 0), 32), c.rd(rr, 2, 6)
        x = lambda hi, lo: simp(z3.Extract(hi, lo, ttl))

        def o(c, m):
            a = lambda k: add(M_.off, k)
            m.ret_is(0)
            m.cell_is(M_.blk, a(96), 1, 1, "EDNS present")
            m.cell_is(M_.blk, a(97), 1, x(23, 16), "version")
            m.cell_is(M_.blk, a(98), 2, x(15, 0), "flags")
            m.cell_is(M_.blk, a(100), 2, cl, "payload size")
            m.ptr_is(M_.blk, a(104), c.rd_, "options are the record's data")
            m.cell_is(M_.blk, a(116), 2, simp(bv(c.rd(M_, 2, 116), 16) | z3.Concat(x(31, 24), V8(0))), "upper bits of the response code")
            if c.nm.blk is not None:
                m.freed(c.nm.blk)
            m.ptr_is(rr.blk, add(rr.off, 16), NULL)
            m.ptr_is(rr.blk, add(rr.off, 24), NULL)
        return [o]


CONTRACTS = [ParseHeader(), ClearRR(), ParseEdns()]
