"""Sorting an RRset: what qsort is called on, and the comparison it is given."""
from common import *
import externs

# specification order of two rdata (length first, then bytes): described by a first difference j
#   r < 0  iff  la < lb, or la == lb and a[j] < b[j] at the first difference j


def elem_check(rr):
    """run the comparator on two arbitrary record data and require the specified order"""
    def h(E, st, a, ins):
        base, n, sz, cmp = a
        mod = st.frames[-1].f.mod
        t = st.clone()
        A, B = [rdata_obj(t, x) for x in ("A", "B")]
        cells = []
        for x in (A, B):
            cells.append(Ptr(struct_ptr(type("C", (), {"st": t})(), "elem", 8, [], [(0, Ptr(x["blk"], 0))]), 0))
        for r in externs.subrun(E, t, cmp, mod, cells):
            if not E.feasible(r):
                continue
            check_order(E, r, A, B, ins.line)
    return h


def rdata_obj(st, tag):
    ln = fresh("len" + tag, 16)
    b = st.new("rdata" + tag, "arg", add(zext(ln, 16, 64), 2))
    st.mem[b] = Node(st.mem[b], "int", 0, 2, ln)
    return dict(blk=b, len=ln)


def check_order(E, r, A, B, line):
    """the returned sign is that of: length first, then the first differing byte"""
    v = r.ret[0]
    la, lb = A["len"], B["len"]
    r.frames = []
    E.oblig(r.clone(), "order", implies(ult(la, lb, 16), slt(v, 0, 32)), line, "comparison: shorter record data come first")
    E.oblig(r.clone(), "order", implies(ult(lb, la, 16), slt(0, v, 32)), line, "comparison: longer record data come last")
    same = eq(la, lb, 16)
    dec = E.decide(r)
    ra = lambda i: bv(read_byte(r.mem[A["blk"]], add(2, i), dec), 8)
    rb = lambda i: bv(read_byte(r.mem[B["blk"]], add(2, i), dec), 8)
    # K: arbitrary index; J: the first difference if there is one (the comparison itself may name it)
    k = E.K
    n = zext(la, 16, 64)
    E.oblig(r.clone(), "order", implies(land(same, eq(v, 0, 32), ult(k, n)), eq(ra(k), rb(k), 8)), line,
            "comparison: equal only if all bytes are equal", [k])
    # first difference at K: everything before K equal is assumed through a universally quantified fact
    j = fresh("J", 64)
    t = r.clone()
    t.assume(land(same, ult(j, n), lnot(eq(ra(j), rb(j), 8))))
    t.univ.append(lambda i: implies(ult(i, j), eq(ra(i), rb(i), 8)))
    wit = [j] + [x[1] for x in r.notes.get("memcmp", [])]
    E.oblig(t, "order", land(implies(ult(ra(j), rb(j), 8), slt(v, 0, 32)), implies(ult(rb(j), ra(j), 8), slt(0, v, 32))), line,
            "comparison: decided by the first differing byte, as an unsigned number", wit)
    t2 = r.clone()
    t2.assume(same)
    t2.univ.append(lambda i: implies(ult(i, n), eq(ra(i), rb(i), 8)))
    E.oblig(t2, "order", eq(v, 0, 32), line, "comparison: zero for identical record data", wit)


class Sort(Contract):
    """the record data pointers, all of them and nothing else, are sorted with the specified order (qsort is trusted)"""
    name = "wdns_sort_rrset"

    def setup(s, c):
        st = c.st
        n = fresh("n", 16)
        arr = st.new("rdatas", "heap", mul(zext(n, 16, 64), 8))
        arr.ghost["qsort_elem"] = elem_check(None)
        rr = c.st.new("rrset", "arg", 40)
        st.mem[rr] = Node(Node(st.mem[rr], "int", 8, 2, n), "ptr", 32, 8, Ptr(arr, 0))
        return [Ptr(rr, 0)]

    def bind(s, c):
        p = c.args[0]
        c.n = c.rd(p, 2, off=8)
        c.arr = c.rdp(p, 32)

    def footprint(s, c):
        return [(c.arr.blk, 0, mul(zext(c.n, 16, 64), 8))]

    def outcomes(s, c):
        def o(c, m):
            m.ret_is(0)
            if not m.verify:
                raise Unsupported("call of wdns_sort_rrset")
            q = m.st.notes.get("qsort", ())
            n = zext(c.n, 16, 64)
            done = lor(*[land(b.blk is c.arr.blk, eq(b.off, 0), eq(k, n), eq(sz, 8)) for b, k, sz in q])
            m.ensure(lor(done, ule(n, 1)), "all record data are sorted")
            m.ensure(len(q) <= 1, "sorted once")
        return [o]


class TotalOrder(Contract):
    """the specified order is total, antisymmetric and transitive for record data of any lengths and bytes"""
    name = "lemma_rdata_order_total"

    def lemma_run(s, E, C):
        from engine import State
        E.K = fresh("K", 64)
        F = [fresh_fn("d%d" % i, BV64, BV8) for i in range(3)]
        L = [fresh("l%d" % i, 16) for i in range(3)]

        def lt(a, b, j):
            """a < b with first difference j; returns (fact, universally quantified part)"""
            return (z3.Or(z3.ULT(L[a], L[b]), z3.And(L[a] == L[b], z3.ULT(j, Z64(L[a], 16)), z3.ULT(F[a](j), F[b](j)))),
                    lambda k: z3.Implies(z3.And(L[a] == L[b], z3.ULT(bv(k, 64), j)), F[a](bv(k, 64)) == F[b](bv(k, 64))))
        j1, j2, j3 = fresh("j1", 64), fresh("j2", 64), fresh("j3", 64)
        # transitivity: the smaller of the two first differences is a first difference of a and c
        st = State()
        f1, u1 = lt(0, 1, j1)
        f2, u2 = lt(1, 2, j2)
        st.assume([f1, f2])
        st.univ += [u1, u2]
        j = z3.If(L[0] == L[1], z3.If(L[1] == L[2], z3.If(z3.ULT(j1, j2), j1, j2), j1), j2)
        g, ug = lt(0, 2, j)
        E.oblig(st, "lemma", z3.And(g, ug(E.K)), 0, "a<b and b<c give a<c", [E.K, j1, j2, j])
        # asymmetry
        st = State()
        f1, u1 = lt(0, 1, j1)
        f2, u2 = lt(1, 0, j2)
        st.assume([f1, f2])
        st.univ += [u1, u2]
        E.oblig(st, "lemma", z3.BoolVal(False), 0, "not both a<b and b<a", [j1, j2])
        # totality: a difference at j with everything before equal puts the two in one of the orders
        st = State()
        st.assume(z3.Or(L[0] != L[1], z3.And(z3.ULT(j1, Z64(L[0], 16)), F[0](j1) != F[1](j1))))
        st.univ.append(lambda k: z3.Implies(z3.And(L[0] == L[1], z3.ULT(bv(k, 64), j1)), F[0](bv(k, 64)) == F[1](bv(k, 64))))
        a, ua = lt(0, 1, j1)
        b, ub = lt(1, 0, j1)
        E.oblig(st, "lemma", z3.Or(z3.And(a, ua(E.K)), z3.And(b, ub(E.K))), 0, "record data that differ are ordered one way or the other", [E.K])
        # compatible with equality: equal data cannot be ordered
        st = State()
        st.assume([L[0] == L[1], f1])
        st.univ.append(lambda k: z3.Implies(z3.ULT(bv(k, 64), Z64(L[0], 16)), F[0](bv(k, 64)) == F[1](bv(k, 64))))
        E.oblig(st, "lemma", z3.BoolVal(False), 0, "identical record data are not ordered", [j1])


CONTRACTS = [Sort(), TotalOrder()]
