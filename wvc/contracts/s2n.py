"""Contracts of the text-to-name conversion."""
import z3
from term import *
from mem import *
from engine import Contract, Ctx, NULL, Unsupported, POISON
from common import *
import externs


class NameText:
    """the wire name spelled by the text S[0..N), as recursive functions of (text position i, octets of the label so far l, octets so far q)"""

    def __init__(s, S, N, fold):
        N = bv(N, 64)
        dig = lambda c: z3.And(z3.UGE(c, 48), z3.ULE(c, 57))

        def val(i):
            d = [z3.ZeroExt(8, S(i + k) - 48) for k in (1, 2, 3)]
            return 100 * d[0] + 10 * d[1] + d[2]

        def step(i, end, char, esc, oct_, dot, bad):
            c = S(i)
            return z3.If(z3.UGE(i, N), end,
                         z3.If(c == 92, z3.If(z3.Not(dig(S(i + 1))), z3.If(i + 1 == N, bad, esc),
                                              z3.If(z3.And(z3.ULE(V(3), N - i), dig(S(i + 1)), dig(S(i + 2)), dig(S(i + 3)), z3.ULE(val(i), 255)), oct_, bad)),
                               z3.If(c == 46, dot, char)))
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        s.fold = fold
        low = (lambda c: z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c | 32, c)) if fold else (lambda c: c)
        s.ok = SpecFn("nt_ok", [BV64, BV64, BV64, z3.BoolSort()], lambda i, l, q: z3.If(
            z3.And(z3.ULT(i, N), z3.UGE(q, 255)), F,
            step(i, z3.And(q != 255, z3.ULE(l, 63)), s.ok(i + 1, l + 1, q + 1), s.ok(i + 2, l + 1, q + 1), s.ok(i + 4, l + 1, q + 1),
                 z3.If(z3.Or(l == 0, z3.UGT(l, 63)), F, z3.If(i + 1 == N, T, s.ok(i + 1, V(0), q + 1))), F)))
        s.len = SpecFn("nt_len", [BV64, BV64, BV64], lambda i, q: step(
            i, q + 1, s.len(i + 1, q + 1), s.len(i + 2, q + 1), s.len(i + 4, q + 1), z3.If(i + 1 == N, q + 1, s.len(i + 1, q + 1)), V(0)))
        # length octet of the label that has l octets at position i
        s.lab = SpecFn("nt_lab", [BV64, BV64, BV8], lambda i, l: step(
            i, z3.Extract(7, 0, l), s.lab(i + 1, l + 1), s.lab(i + 2, l + 1), s.lab(i + 4, l + 1), z3.Extract(7, 0, l), V8(0)))

        # octet k of the name, for k at or after q
        def out(i, q, k):
            now = lambda v, j: z3.If(k == q, v, s.out(j, q + 1, k))
            return step(i, V8(0), now(low(S(i)), i + 1), now(S(i + 1), i + 2), now(z3.Extract(7, 0, val(i)), i + 4),
                        z3.If(z3.And(k == q), z3.If(i + 1 == N, V8(0), s.lab(i + 1, V(0))), z3.If(i + 1 == N, V8(0), s.out(i + 1, q + 1, k))), V8(0))
        s.out = SpecFn("nt_out", [BV64, BV64, BV64, BV8], out)
        z = V(0)
        s.root = z3.Or(N == 0, z3.And(N == 1, S(V(0)) == 46))
        s.valid = z3.Or(s.root, s.ok(z, z, V(1)))
        s.tot = lambda k: z3.If(k == 0, s.lab(z, z), s.out(z, V(1), k))
        s.total = s.len(z, V(1))
        # the octets form a well-formed name of s.total octets: labels of 1 to 63 octets up to the root at its very end
        s.wf = SpecFn("nt_wf", [BV64, z3.BoolSort()], lambda x: z3.If(
            z3.UGE(x, s.total), F, z3.If(s.tot(x) == 0, x + 1 == s.total, z3.And(z3.ULE(s.tot(x), 63), s.wf(x + 1 + Z64(s.tot(x)))))))


class StrToName(Contract):
    """the wire name a text spells, well formed and at most 255 octets long, or an error that leaves nothing allocated"""

    def __init__(s, name, fold):
        s.name, s.fold = name, fold

    def setup(s, c):
        b, L = externs.cstring(c.st, "str")
        nm = struct_ptr(c, "name", 16, [(0, 1, fresh("len0", 8))], [(8, NULL)])
        return [Ptr(b, 0), Ptr(nm, 0)]

    def bind(s, c):
        p, nm = c.args
        L = p.blk.ghost.get("strlen") if p.blk is not None else None
        if p.blk is not None and p.blk.ghost.get("data") is not None and isc(p.off):
            L = p.blk.ghost["data"].index(0, p.off)
        if L is None:
            raise Unsupported("string argument of " + s.name)
        c.L = sub(L, p.off)
        c.t = shared(c, "nametext%d" % s.fold, p.blk, (p.off, c.L), lambda: NameText(reader(c, p.blk, p.off), c.L, s.fold))

    def requires(s, c):
        return [("string shorter than 2^40", ult(c.L, 1 << 40))]

    def footprint(s, c):
        nm = c.args[1]
        return [(nm.blk, nm.off, add(nm.off, 1), "cell"), (nm.blk, add(nm.off, 8), add(nm.off, 16), "ptr")]

    def hints(s, c):
        p, nm = c.args
        t = c.t
        N = bv(c.L, 64)

        def pos(lc):
            return [(v.name, lambda x, v=v: bv(sub(v.t(x), p.off), 64)) for v in lc.ptrs(p.blk)]

        def outs(lc):
            return [v for v in lc.ptrs() if v.blk is not p.blk]

        def counts(lc):
            return [(v.name, lambda x, v=v: bv(v.t(x), 64)) for v in lc.ints()] + [(v.name, lambda x, v=v: bv(v.t(x), 64)) for v in outs(lc)]

        def cands(lc):
            out = []
            K = lc.E.K
            z = V(0)
            for pn, P in pos(lc):
                for v in lc.ints():
                    if v.w == 64:
                        out.append(("rest(%s,%s)" % (pn, v.name), lambda x, P=P, v=v: P(x) + bv(v.t(x), 64) == N))
                        out.append(("more(%s,%s)" % (pn, v.name), lambda x, P=P, v=v: z3.Implies(bv(v.t(x), 64) == 0, z3.ULT(P(x), N))))
                for qn, Q in counts(lc):
                    out.append(("len(%s,%s)" % (pn, qn), lambda x, P=P, Q=Q: t.total == t.len(P(x), Q(x))))
                    out.append(("out(%s,%s)" % (pn, qn), lambda x, P=P, Q=Q: z3.Implies(z3.UGE(K, Q(x)), t.tot(K) == t.out(P(x), Q(x), K))))
                    for v in lc.ints():
                        if v.w == 64:
                            L = lambda x, v=v: bv(v.t(x), 64)
                            out.append(("ok(%s,%s,%s)" % (pn, v.name, qn), lambda x, P=P, Q=Q, L=L: t.ok(z, z, V(1)) == t.ok(P(x), L(x), Q(x))))
            for o in outs(lc):
                O = lambda x, o=o: bv(o.t(x), 64)
                out.append(("wf(%s)" % o.name, lambda x, O=O: t.wf(z) == t.wf(O(x))))
                for pn, P in pos(lc):
                    for v in lc.ints():
                        if v.w == 64:
                            L = lambda x, v=v: bv(v.t(x), 64)
                            out.append(("lab(%s,%s,%s)" % (pn, v.name, o.name), lambda x, P=P, L=L, O=O: z3.Implies(K == O(x), t.tot(K) == t.lab(P(x), L(x)))))
                for v in lc.ints():
                    if v.w == 64:
                        for qn, Q in counts(lc):
                            out.append(("pos(%s,%s,%s)" % (o.name, v.name, qn), lambda x, O=O, v=v, Q=Q: O(x) + 1 + bv(v.t(x), 64) == Q(x)))
            for qn, Q in counts(lc):
                out.append(("q<=255(%s)" % qn, lambda x, Q=Q: z3.ULE(Q(x), 255)))
            return out

        def vals(blk, lc):
            r = []
            for o in lc.ptrs(blk):
                r.append(lambda x, o=o: (lambda i: t.tot(bv(i, 64)), lambda i, oo=bv(o.t(x), 64): lnot(eq(i, oo))))
            return sorted(r, key=lambda f: 0)

        def kinst(lc, x):
            return [o.t(x) for o in outs(lc)]
        return dict(cands=[cands], vals=[vals], kinst=kinst, lo=[0])

    def outcomes(s, c):
        p, nm = c.args
        t = c.t

        def root(c, m):
            m.ret_is(0)
            m.when(simp(t.root))
            m.cell_is(nm.blk, nm.off, 1, 1, "length of the root")
            d = m.heap(nm.blk, add(nm.off, 8), "data", 1)
            m.region(d, 0, 1, lambda i: V8(0), "the root")

        def good(c, m):
            m.ret_is(0)
            m.when(simp(z3.And(z3.Not(t.root), t.ok(V(0), V(0), V(1)))))
            m.ensure(z3.And(z3.ULE(V(3), t.total), z3.ULE(t.total, 255)), "at most 255 octets")
            m.cell_is(nm.blk, nm.off, 1, simp(z3.Extract(7, 0, t.total)), "reported length")
            d = m.heap(nm.blk, add(nm.off, 8), "data", t.total)
            m.region(d, 0, t.total, lambda i: t.tot(bv(i, 64)), "the octets the text spells")
            m.ensure(t.wf(V(0)), "labels of 1 to 63 octets ended by the root at the end of the name")

        def bad(c, m):
            r = m.ret_any(32)
            m.when(lnot(eq(r, 0, 32)))
            m.when(simp(z3.Not(t.valid)))
        return [root, good, bad]


CONTRACTS = [StrToName("wdns_str_to_name", True), StrToName("wdns_str_to_name_case", False)]
