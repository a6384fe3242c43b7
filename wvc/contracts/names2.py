"""Contracts of the name functions that work with text, and of the subdomain test."""
import z3
from term import *
from mem import *
from engine import Contract, Ctx, NULL, Unsupported, POISON
from common import *
import itertools
from names import lab_spec, CountLabels, rest_cands, half_cands
from externs import DEC, dec3_def, memeq


def text_spec(B, N):
    """presentation form of the wire name B[0..N): (character at k, text length, octets read)"""
    def width(c):
        return z3.If(z3.Or(c == 46, c == 92), V(2), z3.If(z3.And(z3.UGE(c, 33), z3.ULE(c, 126)), V(1), V(4)))

    def char(c, j):
        d = [f(c) for f in DEC]
        esc4 = z3.If(j == 0, V8(92), z3.If(j == 1, d[0], z3.If(j == 2, d[1], d[2])))
        return z3.If(z3.Or(c == 46, c == 92), z3.If(j == 0, V8(92), c), z3.If(z3.And(z3.UGE(c, 33), z3.ULE(c, 126)), c, esc4))
    at_end = lambda i: z3.Or(z3.UGE(i, N), B(i) == 0)

    class T:
        pass
    t = T()
    t.width, t.char = width, char
    # at a label boundary: position i, o characters written so far
    t.ch = SpecFn("tx_ch", [BV64, BV64, BV64, BV8], lambda i, o, k: z3.If(
        at_end(i), z3.If(z3.And(i == 0, k == o), V8(46), V8(0)), t.chi(i + 1, Z64(B(i)), o, k)))
    # inside a label with r octets left
    t.chi = SpecFn("tx_chi", [BV64, BV64, BV64, BV64, BV8], lambda i, r, o, k: z3.If(
        z3.Or(r == 0, z3.UGE(i, N)), z3.If(k == o, V8(46), t.ch(i, o + 1, k)),
        z3.If(z3.ULT(k - o, width(B(i))), char(B(i), k - o), t.chi(i + 1, r - 1, o + width(B(i)), k))))
    t.ln = SpecFn("tx_ln", [BV64, BV64, BV64], lambda i, o: z3.If(at_end(i), z3.If(i == 0, o + 1, o), t.lni(i + 1, Z64(B(i)), o)))
    t.lni = SpecFn("tx_lni", [BV64, BV64, BV64, BV64], lambda i, r, o: z3.If(
        z3.Or(r == 0, z3.UGE(i, N)), t.ln(i, o + 1), t.lni(i + 1, r - 1, o + width(B(i)))))
    t.rd = SpecFn("tx_rd", [BV64, BV64, BV64], lambda i, a: z3.If(at_end(i), a + 1, t.rd(
        z3.If(z3.ULE(i + 1 + Z64(B(i)), N), i + 1 + Z64(B(i)), N), a + 1 + Z64(B(i)))))
    M = z3.If(z3.ULE(N, V(255)), N, V(255))
    # the name ends within 255 octets
    t.fits = SpecFn("tx_fits", [BV64, z3.BoolSort()], lambda i: z3.If(z3.UGE(i, M), False, z3.If(B(i) == 0, True, t.fits(i + 1 + Z64(B(i))))))
    return t


class DomainToStr(Contract):
    """presentation form of a name: labels with escapes, each followed by a dot; the root is a dot"""
    name = "wdns_domain_to_str"
    variants = ("any length", "name of at most 255 octets")

    def setup(self, c):
        st = c.st
        n = fresh("n", 64)
        st.assume(z3.ULT(n, 1 << 40))
        src = st.new("src", "arg", n)
        dst = st.new("dst", "arg", fresh("room", 64))
        return [Ptr(src, fresh("s", 64)), n, Ptr(dst, 0)]

    def bind(self, c):
        src, n, dst = c.args
        if src.blk is None or dst.blk is src.blk:
            raise Unsupported("domain_to_str arguments")
        c.t = shared(c, "text", src.blk, (src.off, n), lambda: text_spec(reader(c, src.blk, src.off), bv(n, 64)))
        c.room = sub(c.size(dst.blk), dst.off)

    def requires(self, c):
        src, n, dst = c.args
        r = [("the name data lies in its object", land(ule(n, c.size(src.blk)), ule(src.off, sub(c.size(src.blk), n)))),
             ("fewer than 2^40 octets", ult(n, 1 << 40)), ("destination inside its object", ule(dst.off, c.size(dst.blk)))]
        big = ule(add(mul(n, 4), 2), c.room)
        fit = land(c.t.fits(0), ule(1022, c.room))
        v = c.v.get("variant")
        if not c.verifying:
            f = "room for four characters per octet, or a name of at most 255 octets and room for 1022 characters"
            d = c.E.decide(c.pre)
            r.append((f, True if d(big) else lor(big, fit)))
        else:
            r.append(("room", big if v == "any length" else fit))
        return r

    def footprint(self, c):
        src, n, dst = c.args
        if c.v.get("variant") == "any length":
            return [(dst.blk, dst.off, add(dst.off, add(mul(n, 4), 2)))]
        return [(dst.blk, dst.off, add(dst.off, 1022))]

    def hints(self, c):
        src, n, dst = c.args
        t = c.t
        p, q = P_(src.blk, src.off), P_(dst.blk, dst.off)

        def vals(blk, lc):
            if blk is dst.blk:
                return [lambda s, Q=Q: ((lambda i: t.ch(V(0), V(0), bv(sub(i, dst.off), 64))), lambda i: ult(i, Q.t(s))) for Q in lc.ptrs(dst.blk)]

        def cands(lc):
            out = []
            K = bv(sub(lc.E.K, dst.off), 64)
            n64 = bv(n, 64)
            z = [V(0), V(0)]
            for pn, P in p(lc):
                for qn, Q in q(lc):
                    out.append(("ch(%s,%s)" % (pn, qn), lambda s, P=P, Q=Q: z3.Implies(z3.ULE(Q(s), K), t.ch(*z, K) == t.ch(P(s), Q(s), K))))
                    out.append(("ln(%s,%s)" % (pn, qn), lambda s, P=P, Q=Q: t.ln(*z) == t.ln(P(s), Q(s))))
                    out.append(("o<=4i(%s,%s)" % (pn, qn), lambda s, P=P, Q=Q: z3.ULE(Q(s), 4 * P(s))))
                    out.append(("o<=4i-4(%s,%s)" % (pn, qn), lambda s, P=P, Q=Q: z3.ULE(Q(s) + 4, 4 * P(s))))
                    out.append(("i0o0(%s,%s)" % (pn, qn), lambda s, P=P, Q=Q: (P(s) == 0) == (Q(s) == 0)))
                    for i in lc.ints():
                        R = lambda s, i=i: bv(i.t(s), 64)
                        out.append(("chi(%s,%s,%s)" % (pn, i.name, qn), lambda s, P=P, Q=Q, R=R: z3.Implies(z3.ULE(Q(s), K), t.ch(*z, K) == t.chi(P(s), R(s), Q(s), K))))
                        out.append(("lni(%s,%s,%s)" % (pn, i.name, qn), lambda s, P=P, Q=Q, R=R: t.ln(*z) == t.lni(P(s), R(s), Q(s))))
                out.append(("fits(%s)" % pn, lambda s, P=P: t.fits(P(s))))
                out.append(("i<=255(%s)" % pn, lambda s, P=P: z3.ULE(P(s), V(255))))
                out.append(("i>=1(%s)" % pn, lambda s, P=P: z3.ULE(V(1), P(s))))
                for i in lc.ints():
                    R = lambda s, i=i: bv(i.t(s), 64)
                    out.append(("fits(%s+%s)" % (pn, i.name), lambda s, P=P, R=R: t.fits(P(s) + R(s))))
                    out.append(("rest(%s,%s)" % (pn, i.name), lambda s, P=P, R=R: P(s) + R(s) == n64))
                    out.append(("rd(%s,%s)" % (pn, i.name), lambda s, P=P, R=R: t.rd(*z) == t.rd(P(s), R(s))))
                    out.append(("rd0(%s,%s)" % (pn, i.name), lambda s, P=P, R=R: (P(s) == 0) == (R(s) == 0)))
                    out.append(("a~i(%s,%s)" % (pn, i.name), lambda s, P=P, R=R: z3.Or(R(s) == P(s), z3.And(P(s) == n64, z3.ULE(P(s), R(s)), z3.ULE(R(s), P(s) + 255)))))
            return out
        return dict(cands=[cands], vals=[vals], lo=[dst.off], terms=[n])

    def outcomes(self, c):
        src, n, dst = c.args
        t = c.t

        def o(c, m):
            L = t.ln(0, 0)
            r = m.ret_any(64)
            m.ensure(r == t.rd(0, 0), "number of octets consumed")
            m.ensure(z3.And(z3.ULE(V(1), L), z3.ULT(L, bv(c.room, 64))), "the text fits")
            m.ensure(z3.Or(z3.ULE(L, V(1021)), z3.ULE(L, 4 * bv(n, 64) + 1)), "at most four characters per octet")
            m.region(dst.blk, dst.off, add(dst.off, add(L, 1)), lambda i: z3.If(bv(sub(i, dst.off), 64) == L, V8(0), t.ch(V(0), V(0), bv(sub(i, dst.off), 64))),
                     "the text is the presentation form, terminated")
            if not m.verify:
                dst.blk.ghost["strlen"] = None
        return [o]


class IsSubdomain(Contract):
    """true exactly when the labels of the second name are a proper suffix, octet by octet, of the first's; an error when a name is malformed"""
    name = "wdns_is_subdomain"

    def setup(self, c):
        a, da, la = name_arg(c, "n0")
        b, db, lb = name_arg(c, "n1")
        return [Ptr(a, 0), Ptr(b, 0), Ptr(c.st.new("res", "arg", 1), 0)]

    def bind(self, c):
        a, b, r = c.args
        c.n = []
        for p in (a, b):
            x = type("N", (), {})()
            x.len, x.data = zext(c.rd(p, 1), 8, 64), c.rdp(p, 8)
            if x.data.blk is None or x.data.blk is POISON:
                raise Unsupported("name without data")
            x.B, x.N = reader(c, x.data.blk, x.data.off), bv(x.len, 64)
            x.ok, x.cnt = shared(c, "lab", x.data.blk, (x.data.off, x.N), lambda: lab_spec(x.B, x.N))
            # position of the k-th label after position i
            x.pos = SpecFn("lab_pos", [BV64, BV64, BV64], lambda i, k, x=x: z3.If(k == 0, i, x.pos(i + 1 + Z64(x.B(i)), k - 1)))
            c.n.append(x)
        x, y = c.n
        if c.verifying:
            for x in c.n:
                def P(i, a, k, x=x):
                    p = x.pos(i, k)
                    return z3.Implies(z3.And(x.ok(i), z3.ULE(a, V(1 << 20)), z3.ULE(a + k, V(1 << 20)), z3.ULE(k, V(1 << 20)), z3.ULT(a + k, x.cnt(i, a))),
                                      z3.And(z3.ULT(p, x.N), x.B(p) != 0, z3.ULE(x.B(p), 63), z3.ULE(p + 1 + Z64(x.B(p)), x.N)))
                stp = lambda i, k, x=x: x.pos(i, k) == x.pos(i, k - 1) + 1 + Z64(x.B(x.pos(i, k - 1)))
                S = lambda i, k, stp=stp: z3.Implies(z3.And(k != 0, z3.ULE(k, V(1 << 20))), stp(i, k))
                induct(c, "position of the next label", (64, 64), S, lambda i, k, x=x: [(z3.And(k != 0, k != 1), (i + 1 + Z64(x.B(i)), k - 1))], lambda i, k: k)
                if induct(c, "labels below the count lie in the name", (64, 64, 64), P, lambda i, a, k, x=x: [(k != 0, (i + 1 + Z64(x.B(i)), a + 1, k - 1))],
                          lambda i, a, k: k):
                    x.pos.lemma = lambda app, i, k, P=P, S=S: [P(i, V(0), k), S(i, k)] if z3.is_bv_value(i) and i.as_long() == 0 else []
        x, y = c.n
        c.meq = memeq(c.E, c.pre.mem[x.data.blk], c.pre.mem[y.data.blk])
        c.L0, c.L1 = x.cnt(0, 0), y.cnt(0, 0)

        def leq(j):
            p, q = x.pos(V(0), j + (c.L0 - c.L1)), y.pos(V(0), j)
            return z3.And(x.B(p) == y.B(q), c.meq(bv(x.data.off, 64) + p + 1, bv(y.data.off, 64) + q + 1, Z64(x.B(p))))
        # the labels j, j-1, ..., 0 of the second name equal the labels at the same distance from the end of the first
        c.suf = SpecFn("suffix", [BV64, z3.BoolSort()], lambda j: z3.If(j < 0, True, z3.And(leq(j), c.suf(j - 1))))

    def requires(self, c):
        return [(w + " name's data holds len octets", land(ule(x.len, c.size(x.data.blk)), ule(x.data.off, sub(c.size(x.data.blk), x.len)))) for w, x in zip(("first", "second"), c.n)]

    def footprint(self, c):
        r = c.args[2]
        return [(r.blk, r.off, add(r.off, 1), "cell")]

    def hints(self, c):
        x, y = c.n

        def vals(blk, lc):
            if blk.kind == "stack":
                return [lambda s, n=n: (lambda i: z3.Extract(7, 0, n.pos(V(0), bv(i, 64)))) for n in c.n]

        def cands(lc):
            out = []
            K = bv(lc.E.K, 64)
            for n in c.n:
                for pn, P in P_(n.data.blk, n.data.off)(lc):
                    for v in lc.ints():
                        R = lambda s, v=v: bv(v.t(s), 64)
                        out.append(("pos(%s,%s)" % (pn, v.name), lambda s, P=P, R=R, n=n: z3.Implies(z3.ULE(R(s), K), n.pos(V(0), K) == n.pos(P(s), K - R(s)))))
                        out.append(("here(%s,%s)" % (pn, v.name), lambda s, P=P, R=R, n=n: n.pos(V(0), R(s)) == P(s)))
                        out.append(("cnt(%s,%s)" % (pn, v.name), lambda s, P=P, R=R, n=n: n.cnt(V(0), V(0)) == n.cnt(P(s), R(s))))
                    out.append(("ok(%s)" % pn, lambda s, P=P, n=n: n.ok(P(s))))
            for v in lc.ints():
                R = lambda s, v=v: bv(v.t(s), 64)
                out.append(("suf(%s)" % v.name, lambda s, R=R: c.suf(c.L1 - 1) == c.suf(R(s))))
                for n, L in ((x, c.L0), (y, c.L1)):
                    out.append(("%s<%s" % (v.name, L), lambda s, R=R, L=L: R(s) < L))
            for v, w in itertools.permutations(lc.ints(), 2):
                out.append(("%s-%s=L0-L1" % (v.name, w.name), lambda s, v=v, w=w: bv(v.t(s), 64) - bv(w.t(s), 64) == c.L0 - c.L1))
            return out
        return dict(cands=[cands, half_cands(x.data.blk, x.data.off), half_cands(y.data.blk, y.data.off)], vals=[vals], terms=[c.L0, c.L1])

    def outcomes(self, c):
        r = c.args[2]
        x, y = c.n
        wf = land(x.ok(0), y.ok(0))

        def good(c, m):
            m.ret_is(0)
            m.when(wf)
            m.cell_is(r.blk, r.off, 1, z3.If(z3.And(z3.ULT(c.L1, c.L0), c.suf(c.L1 - 1)), V8(1), V8(0)), "proper suffix, label by label")

        def bad(c, m):
            q = m.ret_any()
            m.when(lnot(eq(q, 0, 32)))
            m.when(lnot(wf))
            m.cell_is(r.blk, r.off, 1, 0, "false on error")
        return [good, bad]


CONTRACTS = [DomainToStr(), IsSubdomain()]
