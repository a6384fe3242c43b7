"""Contracts of the binary-to-text encoders and number formatters (libmy)."""
from common import *


def b64_char(v):
    """RFC 4648 base64 alphabet; v: 8-bit term below 64"""
    v = bv(v, 8)
    return z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4, z3.If(v == 62, V8(43), V8(47)))))


def b64_val(ch):
    """value of a base64 character, 0xff for any other character"""
    ch = bv(ch, 8)
    return z3.If(z3.And(z3.UGE(ch, 65), z3.ULE(ch, 90)), ch - 65, z3.If(z3.And(z3.UGE(ch, 97), z3.ULE(ch, 122)), ch - 71,
                 z3.If(z3.And(z3.UGE(ch, 48), z3.ULE(ch, 57)), ch + 4, z3.If(ch == 43, V8(62), z3.If(ch == 47, V8(63), V8(255))))))


def b64_out(B, k):
    """character k of the encoding of the bytes B"""
    k = bv(k, 64)
    g = 3 * z3.LShR(k, V(2))
    j = z3.Extract(1, 0, k)
    x, y, z = B(g), B(g + 1), B(g + 2)
    return b64_char(z3.If(j == 0, z3.LShR(x, 2), z3.If(j == 1, ((x & 3) << 4) | z3.LShR(y, 4), z3.If(j == 2, ((y & 15) << 2) | z3.LShR(z, 6), z & 63))))


def divmod_ghost(c, n, d):
    """ghost quotient and remainder of a 64-bit term by the constant d"""
    if isc(n):
        return n // d, n % d
    q, r = fresh("quot", 64), fresh("rem", 64)
    c.st.assume(z3.And(bv(n, 64) == d * q + r, z3.ULT(r, d), z3.ULT(q, 1 << 45)))
    return q, r


class B64Block(Contract):
    """the encoding of all whole groups and the complete characters of the last one; the rest is kept in the state"""
    name = "base64_encode_block"

    def setup(s, c):
        n = fresh("n", 32)
        i = c.st.new("in", "arg", zext(n, 32, 64))
        out = c.st.new("out", "arg", fresh("outsz", 64))
        S = struct_ptr(c, "state", 8, [(0, 4, 0), (4, 1, fresh("r0", 8))])
        return [Ptr(i, 0), n, Ptr(out, 0), Ptr(S, 0)]

    def bind(s, c):
        c.src, n, c.out, c.S = c.args
        c.n = zext(n, 32, 64)
        c.q, c.r = divmod_ghost(c, c.n, 3)
        c.cnt = add(mul(c.q, 4), c.r)
        c.B = reader(c, c.src.blk, c.src.off) if c.src.blk is not None else None

    def requires(s, c):
        return [("length below 2^29", ult(c.n, 1 << 29)), ("state is at the start of a group", eq(c.rd(c.S, 4), 0, 32)),
                ("input is readable", land(ule(c.n, c.size(c.src.blk)), ule(c.src.off, sub(c.size(c.src.blk), c.n)))),
                ("output has room", land(ule(c.cnt, c.size(c.out.blk)), ule(c.out.off, sub(c.size(c.out.blk), c.cnt))))]

    def footprint(s, c):
        o = c.out.off
        return [(c.out.blk, o, add(o, c.cnt)), (c.S.blk, c.S.off, add(c.S.off, 4), "cell"), (c.S.blk, add(c.S.off, 4), add(c.S.off, 5), "cell")]

    def val(s, c, i):
        return b64_out(c.B, sub(i, c.out.off))

    def hints(s, c):
        def cands(lc):
            out = []
            for k in lc.ptrs(c.out.blk):
                for p in lc.ptrs(c.src.blk):
                    def f(st, k=k, p=p):
                        d, e = sub(k.t(st), c.out.off), sub(p.t(st), c.src.off)
                        return z3.And((d & 3) == 0, 3 * z3.LShR(d, V(2)) == bv(e, 64))
                    out.append(("groups(%s,%s)" % (k.name, p.name), f))
            return out
        return dict(cands=[cands], vals=[lambda blk, lc: [lambda st: (lambda i: s.val(c, i))] if blk is c.out.blk else []], lo=[c.out.off])

    def outcomes(s, c):
        def o(c, m):
            m.ret_is(trunc(c.cnt, 64, 32))
            m.region(c.out.blk, c.out.off, add(c.out.off, c.cnt), lambda i: s.val(c, i), "base64 characters of the input")
            st, rs = m.cell(c.S.blk, c.S.off, 4), m.cell(c.S.blk, add(c.S.off, 4), 1)
            m.ensure(eq(st, trunc(c.r, 64, 32), 32), "state: octets of the last group")
            last = c.B(sub(c.n, 1))
            m.ensure(implies(eq(c.r, 1), eq(rs, (last & 3) << 4, 8)), "state: pending bits")
            m.ensure(implies(eq(c.r, 2), eq(rs, (last & 15) << 2, 8)), "state: pending bits")
        return [o]


class B64End(Contract):
    """the pending character and the padding"""
    name = "base64_encode_blockend"

    def setup(s, c):
        out = c.st.new("out", "arg", fresh("outsz", 64))
        S = struct_ptr(c, "state", 8, [(0, 4, fresh("step", 32)), (4, 1, fresh("r0", 8))])
        return [Ptr(out, 0), Ptr(S, 0)]

    def bind(s, c):
        c.out, c.S = c.args
        c.step, c.res = c.rd(c.S, 4), c.rd(c.S, 1, off=4)
        c.cnt = ite(eq(c.step, 0, 32), 0, ite(eq(c.step, 1, 32), 3, 2))

    def requires(s, c):
        return [("state is one of the three", ule(c.step, 2, 32)), ("pending bits are six", ult(c.res, 64, 8)),
                ("output has room", land(ule(c.cnt, c.size(c.out.blk)), ule(c.out.off, sub(c.size(c.out.blk), c.cnt))))]

    def footprint(s, c):
        return [(c.out.blk, c.out.off, add(c.out.off, c.cnt))]

    def outcomes(s, c):
        def o(c, m):
            m.ret_is(trunc(c.cnt, 64, 32))
            m.region(c.out.blk, c.out.off, add(c.out.off, c.cnt),
                     lambda i: z3.If(zb(eq(i, c.out.off)), b64_char(c.res), V8(61)), "pending character, then padding")
        return [o]


class B64Dec(Contract):
    """decodes the base64 characters and skips all others; at most one octet is touched beyond the decoded ones"""
    name = "base64_decode_block"

    def setup(s, c):
        n = fresh("n", 32)
        i = c.st.new("in", "arg", zext(n, 32, 64))
        out = c.st.new("out", "arg", fresh("outsz", 64))
        S = struct_ptr(c, "state", 8, [(0, 4, 0), (4, 1, 0)])
        return [Ptr(i, 0), n, Ptr(out, 0), Ptr(S, 0)]

    def bind(s, c):
        c.src, n, c.out, c.S = c.args
        c.n = zext(n, 32, 64)
        B = c.B = reader(c, c.src.blk, c.src.off)
        c.q, c.r = divmod_ghost(c, c.n, 4)
        # room needed: 3 octets per 4 characters, one more for a begun group
        c.room = add(mul(c.q, 3), ite(eq(c.r, 0), 1, c.r))
        N = bv(c.n, 64)

        # number of octets: from character i on, in step st (2 bits)
        def nb(i, st):
            v = b64_val(B(i))
            return z3.If(z3.UGE(i, N), V(0), z3.If(v == 255, c.NB(i + 1, st), z3.If(st == 0, V(0), V(1)) + c.NB(i + 1, st + 1)))
        c.NB = SpecFn("b64n", [BV64, z3.BitVecSort(2), BV64], nb)

        # byte kk of the output, from character i on, in step st, with k octets complete and acc pending
        def ob(i, st, k, acc, kk):
            v = b64_val(B(i))
            nxt = lambda a, kx: c.OB(i + 1, st + 1, kx, a, kk)
            full = lambda x, a: z3.If(kk == k, acc | x, nxt(a, k + 1))
            return z3.If(z3.UGE(i, N), acc, z3.If(v == 255, c.OB(i + 1, st, k, acc, kk),
                   z3.If(st == 0, nxt(v << 2, k), z3.If(st == 1, full(z3.LShR(v, 4), (v & 15) << 4),
                         z3.If(st == 2, full(z3.LShR(v, 2), (v & 3) << 6), full(v, V8(0)))))))
        c.OB = SpecFn("b64d", [BV64, z3.BitVecSort(2), BV64, BV8, BV64, BV8], ob)
        c.count = c.NB(V(0), z3.BitVecVal(0, 2))

    def requires(s, c):
        return [("length below 2^29", ult(c.n, 1 << 29)), ("state is at the start of a group", land(eq(c.rd(c.S, 4), 0, 32), eq(c.rd(c.S, 1, off=4), 0, 8))),
                ("input is readable", land(ule(c.n, c.size(c.src.blk)), ule(c.src.off, sub(c.size(c.src.blk), c.n)))),
                ("output has room", land(ule(c.room, c.size(c.out.blk)), ule(c.out.off, sub(c.size(c.out.blk), c.room))))]

    def footprint(s, c):
        o = c.out.off
        return [(c.out.blk, o, add(o, c.room)), (c.S.blk, c.S.off, add(c.S.off, 4), "cell"), (c.S.blk, add(c.S.off, 4), add(c.S.off, 5), "cell")]

    def hints(s, c):
        K = c.E.K
        two = lambda k: z3.BitVecVal(k, 2)
        def cands(lc):
            out = []
            for k in lc.ptrs(c.out.blk):
                for p in lc.ptrs(c.src.blk):
                    for st in range(4):
                        def pos(x):
                            return bv(sub(k.t(x), c.out.off), 64), bv(sub(p.t(x), c.src.off), 64)

                        def cnt(x, pos=pos, st=st):
                            d, e = pos(x)
                            return c.count == d + c.NB(e, two(st))

                        def room(x, pos=pos, st=st):
                            d, e = pos(x)
                            # octets complete and begun never exceed the characters consumed
                            return z3.ULE(4 * d + [0, 2, 3, 4][st] if False else 4 * d + [0, 1, 2, 3][st], 3 * e + [0, -2, -2, -1][st] * 0)

                        def byte(x, pos=pos, st=st, k=k):
                            d, e = pos(x)
                            acc = V8(0) if st == 0 else bv(read_byte(x.mem[c.out.blk], k.t(x), c.E.decide(x)), 8)
                            kk = K - bv(c.out.off, 64)
                            return z3.Implies(z3.UGE(kk, d), c.OB(V(0), two(0), V(0), V8(0), kk) == c.OB(e, two(st), d, acc, kk))
                        out += [("count%d" % st, cnt), ("room%d" % st, room), ("byte%d" % st, byte)]
            return out
        return dict(cands=[cands], vals=[lambda blk, lc: [lambda x: (lambda i: s.val(c, i))] if blk is c.out.blk else []], lo=[c.out.off])

    def val(s, c, i):
        return c.OB(V(0), z3.BitVecVal(0, 2), V(0), V8(0), bv(sub(i, c.out.off), 64))

    def outcomes(s, c):
        def o(c, m):
            m.ret_is(trunc(c.count, 64, 32))
            m.ensure(ule(c.count, sub(c.room, 1)) if False else ule(c.count, c.room), "no more octets than room")
            m.region(c.out.blk, c.out.off, add(c.out.off, c.count), lambda i: s.val(c, i), "decoded octets")
        return [o]


class HexStr(Contract):
    """two hexadecimal digits per octet, as many octets as fit, and a terminator"""
    name = "my_bytes_to_hex_str"

    def setup(s, c):
        n = fresh("n", 64)
        i = c.st.new("src", "arg", n)
        sz = fresh("dst_size", 64)
        d = c.st.new("dst", "arg", sz)
        return [Ptr(i, 0), n, fresh("upper", 1), Ptr(d, 0), sz]

    def bind(s, c):
        c.src, c.n, c.up, c.dst, c.sz = c.args
        c.B = reader(c, c.src.blk, c.src.off)
        half = simp(z3.LShR(bv(sub(c.sz, 1), 64), V(1)))
        c.len = ite(ult(half, c.n), half, c.n)

    def requires(s, c):
        sz = c.size(c.dst.blk)
        return [("destination has at least one octet", ule(1, c.sz)), ("sizes below 2^47", land(ult(c.n, 1 << 47), ult(c.sz, 1 << 47))),
                ("input is readable", land(ule(c.n, c.size(c.src.blk)), ule(c.src.off, sub(c.size(c.src.blk), c.n)))),
                ("destination size", land(ule(c.sz, sz), ule(c.dst.off, sub(sz, c.sz))))]

    def footprint(s, c):
        return [(c.dst.blk, c.dst.off, add(c.dst.off, add(mul(c.len, 2), 1)))]

    def val(s, c, i):
        k = bv(sub(i, c.dst.off), 64)
        b = c.B(z3.LShR(k, V(1)))
        d = z3.If(z3.Extract(0, 0, k) == 0, z3.LShR(b, 4), b & 15)
        return z3.If(z3.ULT(d, 10), d + 48, d + z3.If(zb(c.up), V8(55), V8(87)))

    def hints(s, c):
        return dict(vals=[lambda blk, lc: [lambda x: (lambda i: s.val(c, i))] if blk is c.dst.blk else []], lo=[c.dst.off],
                    terms=[c.len], ranges=[lambda blk, lc: [("2*" + v.name, lambda st: c.dst.off, lambda st, v=v: add(c.dst.off, mul(v.t(st), 2))) for v in lc.ints()]
                                           if blk is c.dst.blk else []])

    def outcomes(s, c):
        def o(c, m):
            m.ret_is(mul(c.len, 2))
            e = add(c.dst.off, mul(c.len, 2))
            m.region(c.dst.blk, c.dst.off, e, lambda i: s.val(c, i), "hexadecimal digits")
            m.cell_is(c.dst.blk, e, 1, 0, "terminator")
        return [o]


class HexU16(Contract):
    """the four hexadecimal digits of a number, most significant first"""
    name = "my_uint16_to_hex_str"

    def setup(s, c):
        sz = fresh("dst_size", 64)
        return [fresh("num", 16), fresh("upper", 1), Ptr(c.st.new("dst", "arg", sz), 0), sz]

    def bind(s, c):
        c.num, c.up, c.dst, c.sz = c.args

    def requires(s, c):
        sz = c.size(c.dst.blk)
        return [("destination has at least five octets", land(ule(5, c.sz), ult(c.sz, 1 << 47))), ("destination size", land(ule(c.sz, sz), ule(c.dst.off, sub(sz, c.sz))))]

    def footprint(s, c):
        return [(c.dst.blk, c.dst.off, add(c.dst.off, 5))]

    def outcomes(s, c):
        def dig(k):
            d = z3.ZeroExt(4, z3.Extract(4 * k + 3, 4 * k, bv(c.num, 16)))
            return z3.If(z3.ULT(d, 10), d + 48, d + z3.If(zb(c.up), V8(55), V8(87)))

        def o(c, m):
            m.ret_is(4)
            for i in range(4):
                m.cell_is(c.dst.blk, add(c.dst.off, i), 1, dig(3 - i), "digit %d" % i)
            m.cell_is(c.dst.blk, add(c.dst.off, 4), 1, 0, "terminator")
        return [o]


U10 = z3.BitVec("u10", 64)


class U64Str(Contract):
    """the decimal digits without leading zeros (the last ones that fit), right-aligned before a terminator"""
    name = "my_uint64_to_str"

    def setup(s, c):
        sz = fresh("dst_size", 64)
        return [fresh("num", 64), Ptr(c.st.new("dst", "arg", sz), 0), sz, Ptr(struct_ptr(c, "start", 8), 0)]

    def bind(s, c):
        c.num, c.dst, c.sz, c.start = c.args
        ten = V(10)
        c.DG = SpecFn("digit", [BV64, BV64, BV8], lambda n, k: z3.If(k == 0, z3.Extract(7, 0, z3.URem(n, ten)) + 48, c.DG(z3.UDiv(n, ten), k - 1)))
        c.ND = SpecFn("ndigits", [BV64, BV64], lambda n: z3.If(z3.UDiv(n, ten) == 0, V(1), 1 + c.ND(z3.UDiv(n, ten))))
        if c.verifying:
            bound = V(20)
            for k in range(19, 0, -1):
                bound = z3.If(z3.ULT(U10, V(10 ** k)), V(k), bound)
            P = lambda n: z3.And(z3.ULE(V(1), c.ND(n)), z3.ULE(c.ND(n), z3.substitute(bound, (U10, n))))
            induct(c, "number of digits", (64,), P, lambda n: [(z3.UGE(n, ten), z3.UDiv(n, ten))] and [(z3.UGE(n, ten), (z3.UDiv(n, ten),))], lambda n: n)
            c.ND.lemma = lambda app, n: [z3.And(z3.ULE(V(1), app), z3.ULE(app, V(20)))]
        c.full = c.ND(bv(c.num, 64))
        room = bv(sub(c.sz, 1), 64)
        c.cnt = z3.If(z3.ULT(room, c.full), room, c.full)

    def requires(s, c):
        sz = c.size(c.dst.blk)
        return [("room for a digit and the terminator", land(ule(2, c.sz), ult(c.sz, 1 << 47))), ("destination size", land(ule(c.sz, sz), ule(c.dst.off, sub(sz, c.sz))))]

    def footprint(s, c):
        e = add(c.dst.off, c.sz)
        return [(c.dst.blk, c.dst.off, e)] + ([(c.start.blk, c.start.off, add(c.start.off, 8), "ptr")] if c.start.blk is not None else [])

    def val(s, c, i):
        e = bv(add(c.dst.off, sub(c.sz, 2)), 64)
        return c.DG(bv(c.num, 64), e - bv(i, 64))

    def hints(s, c):
        e = bv(add(c.dst.off, sub(c.sz, 2)), 64)
        K = c.E.K
        num = bv(c.num, 64)
        def cands(lc):
            out = []
            for p in lc.ptrs(c.dst.blk):
                for n in lc.ints():
                    out.append(("digits(%s,%s)" % (p.name, n.name), lambda x, p=p, n=n: z3.Implies(z3.ULE(K, bv(p.t(x), 64)),
                                c.DG(num, e - K) == c.DG(bv(n.t(x), 64), bv(p.t(x), 64) - K))))
                    out.append(("count(%s,%s)" % (p.name, n.name), lambda x, p=p, n=n: c.full == e - bv(p.t(x), 64) + c.ND(bv(n.t(x), 64))))
                    out.append(("nd(%s,%s)" % (p.name, n.name), lambda x, p=p, n=n: bv(n.t(x), 64) == e - bv(p.t(x), 64)))
                out.append(("lo(%s)" % p.name, lambda x, p=p: ule(c.dst.off, p.t(x))))
            return out
        end = add(c.dst.off, sub(c.sz, 1))
        return dict(cands=[cands], vals=[lambda blk, lc: [lambda x: (lambda i: s.val(c, i))] if blk is c.dst.blk else []], terms=[end],
                    ranges=[lambda blk, lc: [("down" + p.name, lambda st, p=p: add(p.t(st), 1), lambda st: end) for p in lc.ptrs(blk)] if blk is c.dst.blk else []])

    def outcomes(s, c):
        def o(c, m):
            m.ret_is(c.cnt)
            e = add(c.dst.off, sub(c.sz, 1))
            m.cell_is(c.dst.blk, e, 1, 0, "terminator")
            m.region(c.dst.blk, sub(e, c.cnt), e, lambda i: s.val(c, i), "decimal digits")
            if c.start.blk is not None:
                m.ptr_is(c.start.blk, c.start.off, Ptr(c.dst.blk, sub(e, c.cnt), c.dst.gen), "start of the digits")
        return [o]


CONTRACTS = [B64Block(), B64End(), B64Dec(), HexStr(), HexU16(), U64Str()]
