"""Contracts of the growable vectors (libmy/vector.h, libmy/ubuf.h).

Representation invariant of a vector object (40 bytes: _v, _p, _n, _n_alloced, _hint):
  _v points to the start of a live allocation of exactly _n_alloced elements, _p to element _n,
  _n <= _n_alloced, _n_alloced >= 1, _hint >= 1.
Abstract view: the sequence of the first _n elements."""
from common import *

BIG = 1 << 40        # element counts of one operation (the library never comes near it)


class VecOp(Contract):
    pfx, esz = "ubuf", 1
    op = None
    k_args = ()

    def __init__(s, pfx="ubuf", esz=1):
        s.pfx, s.esz = pfx, esz
        s.name = "%s_%s" % (pfx, s.op)

    # -- the vector argument
    def new_vec(s, c):
        st = c.st
        n, cap, hint = fresh("n", 64), fresh("cap", 64), fresh("hint", 64)
        H = st.new("buf", "heap", mul(cap, s.esz))
        st.assume(z3.ULT(cap, V(1 << 46)))
        U = struct_ptr(c, "vec", 40, [(16, 8, n), (24, 8, cap), (32, 8, hint)], [(0, Ptr(H, 0)), (8, Ptr(H, mul(n, s.esz)))], kind="heap")
        c.E.mayfree.add(H)
        return U

    def view(s, c, p):
        u = type("U", (), {})()
        u.p = p
        if p.blk is None:
            raise Unsupported("null vector")
        u.v, u.w = c.rdp(p, 0), c.rdp(p, 8)
        u.n, u.cap, u.hint = c.rd(p, 8, 16), c.rd(p, 8, 24), c.rd(p, 8, 32)
        u.H = u.v.blk
        u.lo = mul(u.n, s.esz)
        return u

    def inv(s, c, u):
        pre = c.pre
        if u.H is None or u.H is POISON:
            return [("vector has an allocation", False)]
        return [("vector: start of a live allocation", land(pre.live[u.H] == "live", u.v.gen == pre.gen[u.H], eq(u.v.off, 0))),
                ("vector: allocation matches capacity", eq(c.size(u.H), mul(u.cap, s.esz))),
                ("vector: size within capacity", ule(u.n, u.cap)),
                ("vector: write position at the end", u.w.blk is u.H and u.w.gen == pre.gen[u.H] and eq(u.w.off, u.lo)),
                ("vector: capacity and hint positive", land(ule(1, u.cap), ule(1, u.hint), ult(u.cap, 1 << 46), ult(u.hint, 1 << 46)))]

    def put(s, c, m, u, n2, need=None, keepsz=False):
        """the vector object after the call: new size n2; returns nothing, contents are stated separately"""
        H, U, o = u.H, u.p.blk, u.p.off
        if keepsz:
            cap2 = u.cap
            m.cell_is(U, add(o, 24), 8, u.cap, "capacity unchanged")
        else:
            sz = m.resize(H)
            cap2 = m.cell(U, add(o, 24), 8, "cap")
            m.ensure(eq(sz, mul(cap2, s.esz)), "allocation matches capacity")
            m.ensure(land(ule(n2, cap2), ule(1, cap2), ult(cap2, 1 << 46)) if need is None else
                     land(ule(n2, cap2), ule(1, cap2), ult(cap2, 1 << 46), ule(need, sub(cap2, n2))), "size within capacity")
        m.cell_is(U, add(o, 16), 8, n2, "size")
        m.cell_is(U, add(o, 32), 8, u.hint, "hint unchanged")
        m.ptr_is(U, o, m.here(H, 0), "start of the allocation")
        m.ptr_is(U, add(o, 8), m.here(H, mul(n2, s.esz)), "write position is the end of the contents")

    def keepc(s, c, m, u, lo, hi):
        """contents [lo,hi) bytes unchanged"""
        pre, dec = c.pre.mem[u.H], c.E.decide(c.pre)
        m.region(u.H, lo, hi, lambda i: read_byte(pre, i, dec), "existing contents kept")

    def cells_fp(s, u):
        U, o = u.p.blk, u.p.off
        return [(U, o, add(o, 8), "ptr"), (U, add(o, 8), add(o, 16), "ptr"), (U, add(o, 16), add(o, 24), "cell"), (U, add(o, 24), add(o, 32), "cell"), (U, add(o, 32), add(o, 40), "cell")]

    # -- default single-vector operation
    def setup(s, c):
        return [Ptr(s.new_vec(c), 0)] + s.more(c)

    def more(s, c):
        return []

    def bind(s, c):
        c.u = s.view(c, c.args[0])

    def requires(s, c):
        return s.inv(c, c.u) + s.req(c)

    def req(s, c):
        return []

    def footprint(s, c):
        return s.cells_fp(c.u) + [(c.u.H, c.u.lo, 1 << 48)]

    def hints(s, c):
        u = c.u

        def g(lc):
            need = s.need(c)
            if need is None:
                return []
            return [("%s=cap0|<=2*need" % v.name, lambda st, v=v: lor(eq(v.t(st), u.cap), ule(v.t(st), mul(add(u.n, need), 2)))) for v in lc.ints()] + \
                   [("size=%s*esz" % v.name, lambda st, v=v: eq(st.size[u.H], mul(v.t(st), s.esz))) for v in lc.ints()]
        return dict(cands=[g], terms=[u.n, u.cap])

    def need(s, c):
        return None


class Init(VecOp):
    """an empty vector with at least the requested capacity"""
    op = "init"

    def setup(s, c):
        return [fresh("hint", 32)]

    def bind(s, c):
        pass

    def requires(s, c):
        return []

    def footprint(s, c):
        return []

    def hints(s, c):
        return None

    def outcomes(s, c):
        h = zext(c.args[0], 32, 64) if not isc(c.args[0]) else c.args[0]
        cap = ite(eq(h, 0), 1, h)

        def o(c, m):
            U = m.ret_heap("vec", 40)
            new_contents(s, m, U, 0, cap)
        return [o]


def new_contents(s, m, U, o, cap):
    H = m.heap(U, o, "buf", mul(cap, s.esz))
    m.ptr_is(U, add(o, 8), m.here(H, 0), "write position at the start")
    m.cell_is(U, add(o, 16), 8, 0, "empty")
    m.cell_is(U, add(o, 24), 8, cap, "capacity as requested")
    m.cell_is(U, add(o, 32), 8, cap, "hint as requested")
    m.ensure(eq(m.size(H), mul(cap, s.esz)), "allocation matches capacity")
    return H


class New(Init):
    """a new empty byte buffer"""
    op = "new"

    def setup(s, c):
        return []

    def outcomes(s, c):
        def o(c, m):
            U = m.ret_heap("vec", 40)
            new_contents(s, m, U, 0, 64)
        return [o]


class Reserve(VecOp):
    """room for n more elements; contents unchanged"""
    op = "reserve"

    def more(s, c):
        return [fresh("need", 64)]

    def need(s, c):
        return c.args[1]

    def req(s, c):
        return [("request below 2^40 elements", land(ult(c.args[1], BIG), ult(c.u.n, BIG)))]

    def outcomes(s, c):
        def o(c, m):
            s.put(c, m, c.u, c.u.n, need=c.args[1])
            s.keepc(c, m, c.u, 0, c.u.lo)
        return [o]

    def footprint(s, c):
        return s.cells_fp(c.u) + [(c.u.H, c.u.lo, 1 << 48)]


class Append(VecOp):
    """contents become old contents followed by the n elements given"""
    op = "append"

    def more(s, c):
        k = fresh("k", 64)
        src = c.st.new("src", "arg", mul(k, s.esz))
        c.st.assume(z3.ULT(k, V(BIG)))
        return [Ptr(src, 0), k]

    def need(s, c):
        return c.args[2]

    def bind(s, c):
        c.u = s.view(c, c.args[0])
        p = c.args[1]
        if p.blk is c.u.H:
            raise Unsupported("appending a buffer to itself")
        if p.blk is not None and p.blk is not POISON:
            node, dec = c.pre.mem[p.blk], c.E.decide(c.pre)
            c.src = lambda i: read_byte(node, add(p.off, i), dec)

    def req(s, c):
        p, k = c.args[1], c.args[2]
        r = [("appended count below 2^40", land(ult(k, BIG), ult(c.u.n, BIG)))]
        b = mul(k, s.esz)
        if p.blk is None or p.blk is POISON:
            r.append(("null source only with count 0", eq(k, 0)))
        else:
            sz = c.size(p.blk)
            r.append(("the appended elements are readable", lor(eq(b, 0), land(ule(b, sz), ule(p.off, sub(sz, b)))) if c.pre.live[p.blk] == "live" and p.gen == c.pre.gen[p.blk] else False))
        return r

    def outcomes(s, c):
        def o(c, m):
            k = c.args[2]
            n2 = add(c.u.n, k)
            s.put(c, m, c.u, n2)
            s.keepc(c, m, c.u, 0, c.u.lo)
            if c.args[1].blk is not None and c.args[1].blk is not POISON:
                m.region(c.u.H, c.u.lo, mul(n2, s.esz), lambda i: c.src(sub(i, c.u.lo)), "the appended elements follow")
        return [o]


class Add(VecOp):
    """contents become old contents followed by the element"""
    op = "add"

    def more(s, c):
        return [fresh("elem", 8 * s.esz)]

    def need(s, c):
        return 1

    def req(s, c):
        return [("size below 2^40", ult(c.u.n, BIG))]

    def outcomes(s, c):
        def o(c, m):
            n2 = add(c.u.n, 1)
            s.put(c, m, c.u, n2)
            s.keepc(c, m, c.u, 0, c.u.lo)
            m.cell_is(c.u.H, c.u.lo, s.esz, c.args[1], "the element follows the old contents")
        return [o]


class Clip(VecOp):
    """contents become the first n elements if there are more"""
    op = "clip"

    def more(s, c):
        return [fresh("k", 64)]

    def outcomes(s, c):
        def o(c, m):
            n2 = ite(ult(c.args[1], c.u.n), c.args[1], c.u.n)
            s.put(c, m, c.u, n2, keepsz=True)
            s.keepc(c, m, c.u, 0, c.u.lo)
        return [o]

    def footprint(s, c):
        return s.cells_fp(c.u)


class Reset(VecOp):
    """empty contents"""
    op = "reset"

    def outcomes(s, c):
        def o(c, m):
            s.put(c, m, c.u, 0)
        return [o]

    def footprint(s, c):
        return s.cells_fp(c.u)


class Advance(VecOp):
    """the next x elements (already written through the write position) join the contents"""
    op = "advance"

    def more(s, c):
        return [fresh("x", 64)]

    def req(s, c):
        return [("room for x elements", ule(c.args[1], sub(c.u.cap, c.u.n)))]

    def outcomes(s, c):
        def o(c, m):
            n2 = add(c.u.n, c.args[1])
            s.put(c, m, c.u, n2, keepsz=True)
            s.keepc(c, m, c.u, 0, mul(c.u.cap, s.esz))
        return [o]

    def footprint(s, c):
        return s.cells_fp(c.u)


class Getter(VecOp):
    def footprint(s, c):
        return []


class Size(Getter):
    """the number of elements"""
    op = "size"

    def outcomes(s, c):
        return [lambda c, m: m.ret_is(c.u.n)]


class Bytes(Getter):
    """the number of bytes of contents"""
    op = "bytes"

    def outcomes(s, c):
        return [lambda c, m: m.ret_is(c.u.lo)]


class Data(Getter):
    """the start of the contents"""
    op = "data"

    def outcomes(s, c):
        return [lambda c, m: m.ret_is(c.u.v)]


class PtrOp(Getter):
    """the write position"""
    op = "ptr"

    def outcomes(s, c):
        return [lambda c, m: m.ret_is(c.u.w)]


class Value(Getter):
    """element i"""
    op = "value"

    def more(s, c):
        return [fresh("i", 64)]

    def req(s, c):
        return [("index below the size", ult(c.args[1], c.u.n))]

    def outcomes(s, c):
        def o(c, m):
            pre, dec = c.pre.mem[c.u.H], c.E.decide(c.pre)
            m.ret_is(read_int(pre, mul(c.args[1], s.esz), s.esz, dec))
        return [o]


class Detach(VecOp):
    """hands out the contents; the vector is empty with a fresh allocation"""
    op = "detach"

    def more(s, c):
        return [Ptr(struct_ptr(c, "out", 8, [], [(0, NULL)]), 0), Ptr(c.st.new("outsz", "arg", 8), 0)]

    def footprint(s, c):
        a, b = c.args[1:]
        return s.cells_fp(c.u) + [(a.blk, a.off, add(a.off, 8), "ptr"), (b.blk, b.off, add(b.off, 8), "cell")]

    def outcomes(s, c):
        def o(c, m):
            a, b = c.args[1:]
            U, of = c.u.p.blk, c.u.p.off
            m.ptr_is(a.blk, a.off, c.u.v, "the old contents are handed out")
            m.cell_is(b.blk, b.off, 8, c.u.n, "with their size")
            new_contents(s, m, U, of, c.u.hint)
        return [o]


class Destroy(VecOp):
    """releases the vector and its contents and clears the caller's pointer; nothing for a null vector"""
    op = "destroy"
    variants = ("vec", "null")

    def setup(s, c):
        if c.v["variant"] == "null":
            return [Ptr(struct_ptr(c, "holder", 8, [], [(0, NULL)]), 0)]
        U = s.new_vec(c)
        c.E.mayfree.add(U)
        return [Ptr(struct_ptr(c, "holder", 8, [], [(0, Ptr(U, 0))]), 0)]

    def bind(s, c):
        p = c.rdp(c.args[0])
        c.u = s.view(c, p) if p.blk is not None else None

    def requires(s, c):
        if c.u is None:
            return []
        return s.inv(c, c.u) + [("start of the vector object", eq(c.u.p.off, 0)), ("vector object is allocated", c.u.p.blk.kind == "heap")]

    def footprint(s, c):
        a = c.args[0]
        fp = [(a.blk, a.off, add(a.off, 8), "ptr")]
        return fp + (s.cells_fp(c.u) if c.u is not None else [])

    def hints(s, c):
        return None

    def outcomes(s, c):
        def o(c, m):
            a = c.args[0]
            m.ptr_is(a.blk, a.off, NULL, "the caller's pointer is cleared")
            if c.u is not None:
                m.freed(c.u.H)
                m.freed(c.u.p.blk)
        return [o]


class Extend(VecOp):
    """contents become the two contents one after the other"""
    op = "extend"

    def more(s, c):
        return [Ptr(s.new_vec(c), 0)]

    def bind(s, c):
        c.u = s.view(c, c.args[0])
        c.w = s.view(c, c.args[1])
        if c.u.H is c.w.H:
            raise Unsupported("extending a buffer by itself")

    def req(s, c):
        return s.inv(c, c.w) + [("sizes below 2^40", land(ult(c.u.n, BIG), ult(c.w.n, BIG)))]

    def outcomes(s, c):
        def o(c, m):
            n2 = add(c.u.n, c.w.n)
            s.put(c, m, c.u, n2)
            s.keepc(c, m, c.u, 0, c.u.lo)
            B = reader(c, c.w.H)
            m.region(c.u.H, c.u.lo, mul(n2, s.esz), lambda i: B(sub(i, c.u.lo)), "the other contents follow")
        return [o]


class Cterm(VecOp):
    """contents end with a NUL octet: unchanged if they did, one appended otherwise"""
    op = "cterm"

    def term(s, c):
        B = reader(c, c.u.H)
        return land(lnot(eq(c.u.n, 0)), eq(B(sub(c.u.n, 1)), 0, 8))

    def req(s, c):
        return [("size below 2^40", ult(c.u.n, BIG))]

    def outcomes(s, c):
        t = s.term(c)

        def kept(c, m):
            m.when(t)
            s.put(c, m, c.u, c.u.n, keepsz=True)
            s.keepc(c, m, c.u, 0, c.u.lo)
            s.ret(c, m)

        def added(c, m):
            m.when(lnot(t))
            s.put(c, m, c.u, add(c.u.n, 1))
            s.keepc(c, m, c.u, 0, c.u.lo)
            m.cell_is(c.u.H, c.u.lo, 1, 0, "terminator")
            s.ret(c, m)
        return [kept, added]

    def ret(s, c, m):
        pass


class Cstr(Cterm):
    """the contents as a NUL-terminated string"""
    op = "cstr"

    def ret(s, c, m):
        m.ret_is(m.here(c.u.H, 0))


class Rstrip(VecOp):
    """a last octet equal to the given character is removed"""
    op = "rstrip"

    def more(s, c):
        return [fresh("ch", 8)]

    def outcomes(s, c):
        def o(c, m):
            B = reader(c, c.u.H)
            cut = land(lnot(eq(c.u.n, 0)), eq(B(sub(c.u.n, 1)), c.args[1], 8))
            s.put(c, m, c.u, ite(cut, sub(c.u.n, 1), c.u.n), keepsz=True)
            s.keepc(c, m, c.u, 0, c.u.lo)
        return [o]

    def footprint(s, c):
        return s.cells_fp(c.u)


class Reinit(VecOp):
    """a vector object becomes an empty vector with a fresh allocation"""
    op = "reinit"

    def setup(s, c):
        return [fresh("hint", 32), Ptr(s.new_vec(c), 0)]

    def bind(s, c):
        c.p = c.args[1]

    def requires(s, c):
        return []

    def footprint(s, c):
        U, o = c.p.blk, c.p.off
        return [(U, o, add(o, 8), "ptr"), (U, add(o, 8), add(o, 16), "ptr"), (U, add(o, 16), add(o, 24), "cell"), (U, add(o, 24), add(o, 32), "cell"), (U, add(o, 32), add(o, 40), "cell")]

    def hints(s, c):
        return None

    def outcomes(s, c):
        h = c.args[0] if isc(c.args[0]) else zext(c.args[0], 32, 64)
        cap = ite(eq(h, 0), 1, h)
        return [lambda c, m: new_contents(s, m, c.p.blk, c.p.off, cap) and None]


class AddCstr(VecOp):
    """a terminator at the end of the contents is dropped, then the string's characters are appended"""
    op = "add_cstr"

    def more(s, c):
        L = fresh("L", 64)
        b = c.st.new("str", "arg", add(L, 1))
        c.st.assume(z3.ULT(L, V(BIG)))
        b.ghost["strlen"] = L
        return [Ptr(b, 0)]

    def bind(s, c):
        c.u = s.view(c, c.args[0])
        p = c.args[1]
        if p.blk is None or p.blk is c.u.H:
            raise Unsupported("add_cstr source")
        if p.blk.ghost.get("data") is not None and isc(p.off):
            d = p.blk.ghost["data"]
            c.len = d.index(0, p.off) - p.off
        elif p.blk.ghost.get("strlen") is not None:
            c.len = sub(p.blk.ghost["strlen"], p.off)
        else:
            raise Unsupported("add_cstr of a string of unknown length")
        B = reader(c, c.u.H)
        c.n0 = ite(land(lnot(eq(c.u.n, 0)), eq(B(sub(c.u.n, 1)), 0, 8)), sub(c.u.n, 1), c.u.n)
        node, dec = c.pre.mem[p.blk], c.E.decide(c.pre)
        c.src = lambda i: read_byte(node, add(p.off, i), dec)

    def req(s, c):
        return [("sizes below 2^40", land(ult(c.u.n, BIG), ult(c.len, BIG)))]

    def need(s, c):
        return c.len

    def footprint(s, c):
        return s.cells_fp(c.u) + [(c.u.H, c.n0, 1 << 48)]

    def outcomes(s, c):
        def o(c, m):
            n2 = add(c.n0, c.len)
            s.put(c, m, c.u, n2)
            s.keepc(c, m, c.u, 0, c.n0)
            m.region(c.u.H, c.n0, n2, lambda i: c.src(sub(i, c.n0)), "the string follows")
        return [o]


UB = [Init, New, Reserve, Append, Add, Clip, Reset, Advance, Size, Bytes, Data, PtrOp, Value, Detach, Destroy, Extend, Cterm, Cstr, Rstrip, Reinit, AddCstr]
U16 = [Init, Add, Size, Data, Value, Destroy]
CONTRACTS = [k() for k in UB] + [k("u16buf", 2) for k in U16]
