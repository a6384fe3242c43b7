"""Families: an array of pointers to separate objects, one per position.  Element i lies at offset i << SH of one block; accesses stay inside
one element's extent.  What the array holds is kept in ghost memory (one octet per position): present (the pointer is not null) and
alive (the element is allocated), so that loops over the array treat both like any other memory."""
import z3
from term import *
from mem import *

SH = 32


class Family:
    def __init__(s, E, st, arr, n, tag, octets, present=None, length=True, zero=False):
        """arr: block of the pointer array (n pointers).  octets: contents function of the elements; present: fn(i) or None (all)"""
        s.arr, s.n, s.tag, s.fn = arr, n, tag, octets
        one = lambda i: 1
        pf = (lambda i: 0) if zero else one if present is None else (lambda i: z3.If(present(bv(i, 64)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        s.blk = st.new(tag + "_elems", "arg", 1 << 56, base_fn(lambda i: octets(bv(i, 64))))
        s.present = st.new(tag + "_present", "arg", n, base_fn(pf))
        s.alive = st.new(tag + "_alive", "arg", n, base_fn(pf))
        s.sizes = st.new(tag + "_sizes", "arg", 1 << 56) if zero else None
        s.pf = pf
        s.blk.ghost["extent"] = s.extent
        for b in (s.blk, arr):
            b.ghost["family"] = s
        for b in (s.blk, arr, s.present, s.alive, s.sizes):
            if b is not None:
                b.ghost["part of"] = s

    def at(s, i, k=0):
        return (bv(i, 64) << SH) + bv(k, 64)

    def len(s, i):
        """stored length of element i before the call (little endian)"""
        return z3.ZeroExt(48, z3.Concat(s.fn(s.at(i, 1)), s.fn(s.at(i, 0))))

    def octet(s, i, k):
        return s.fn(s.at(i) + 2 + bv(k, 64))

    def split(s, off):
        off = z3.simplify(bv(off, 64))
        return z3.simplify(z3.LShR(off, SH)), z3.simplify(z3.ZeroExt(64 - SH, z3.Extract(SH - 1, 0, off)))

    def flag(s, E, st, blk, i):
        return read_byte(st.mem[blk], i, E.decide(st))

    def extent(s, E, st, off, n):
        i, l = s.split(off)
        if s.sizes is None:
            m = s.len(i) + 2
        else:
            m = bv(read_int(st.mem[s.sizes], z3.simplify(i << 3), 8, E.decide(st)), 64)
        g = land(ult(i, s.n), ule(n, m), ule(l, m - bv(n, 64)), eq(s.flag(E, st, s.alive, i), 1, 8))
        return g if isc(n) else lor(eq(n, 0), g)

    def index(s, off):
        off = z3.simplify(bv(off, 64))
        o = z3.simplify(z3.Extract(2, 0, off))
        if not (z3.is_bv_value(o) and o.as_long() == 0):
            raise Unsupported("pointer array accessed at an unaligned offset")
        return z3.simplify(z3.LShR(off, 3))

    def load(s, E, st, off):
        """[(condition, pointer)]: what the array holds at off"""
        i = s.index(off)
        a = s.flag(E, st, s.present, i)
        dec = E.decide(st)
        p = Ptr(s.blk, z3.simplify(i << SH))
        c = simp(eq(a, 1, 8))
        if c is True or c is not False and dec(c) is True:
            return [(True, p)]
        if c is False or dec(lnot(c)) is True:
            return [(True, Ptr(None, 0))]
        return [(c, p), (lnot(c), Ptr(None, 0))]

    def put(s, E, st, blk, i, v, line):
        E.check_frame(st, Ptr(blk, i), 1, line)
        st.mem[blk] = Node(st.mem[blk], "int", i, 1, v)

    def store(s, E, st, off, v, line):
        i = s.index(off)
        if isinstance(v, Ptr) and v.blk is None:
            s.put(E, st, s.present, i, 0, line)
        elif isinstance(v, Ptr) and v.blk is s.blk:
            E.oblig(st, "store", eq(v.off, s.at(i)), line, "the pointer array holds its own elements in order")
            s.put(E, st, s.present, i, 1, line)
        elif isinstance(v, Ptr) and s.sizes is not None and v.blk.kind == "heap" and v.blk not in E.preblocks and st.live.get(v.blk) == "live" and isc(v.off) and v.off == 0:
            H, n, base = v.blk, st.size[v.blk], s.at(i)          # the new object becomes element i
            E.oblig(st, "leak", eq(s.flag(E, st, s.alive, i), 0, 8), line, "no live element is overwritten")
            E.oblig(st, "alloc", ule(n, (1 << SH) - 1), line, "elements are smaller than 2^%d octets" % SH)
            node, dec = st.mem[H], E.decide(st)
            st.mem[s.blk] = Node(st.mem[s.blk], "layer", base, n, lambda k: read_byte(node, sub(k, base), dec), lambda k: ult(sub(k, base), n), "element")
            st.mem[s.sizes] = Node(st.mem[s.sizes], "int", z3.simplify(i << 3), 8, n)
            s.put(E, st, s.alive, i, 1, line)
            s.put(E, st, s.present, i, 1, line)
            st.live[H] = "moved"
            for fr in st.frames:
                for k, x in fr.env.items():
                    if isinstance(x, Ptr) and x.blk is H:
                        fr.env[k] = Ptr(s.blk, z3.simplify(bv(add(base, x.off), 64)))
        else:
            raise Unsupported("pointer stored into an array of separate objects")

    def free(s, E, st, off, line):
        """release of one element"""
        i, l = s.split(off)
        E.oblig(st, "free", land(eq(l, 0), ult(i, s.n), eq(s.flag(E, st, s.alive, i), 1, 8)), line, "release of a live element, at its start")
        s.put(E, st, s.alive, i, 0, line)

    def free_array(s, E, st, line):
        k = E.K
        E.oblig(st, "leak", implies(ult(k, s.n), eq(s.flag(E, st, s.alive, k), 0, 8)), line, "every element is released before the array", [k])
