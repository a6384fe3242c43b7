"""Lemmas over the contracts: facts about the specifications that relate two functions."""
import z3
from term import *
from mem import *
from engine import Contract, State
from common import *
from names2 import text_spec
from s2n import NameText
from externs import DEC, dec3_def


class RoundTrip(Contract):
    """the text that wdns_domain_to_str is specified to write for a well-formed name is one that wdns_str_to_name is specified to turn
    back into the same octets (with ASCII capitals lowered when folding); the text is printable"""

    def __init__(s, name, fold):
        s.name, s.fold = name, fold

    def lemma_run(s, E, C):
        Bf = fresh_fn("wire", BV64, BV8)
        B = lambda i: Bf(bv(i, 64))
        N = fresh("wirelen", 64)
        T = text_spec(B, N)
        z = V(0)
        Ls = T.ln(z, z)
        S = lambda k: z3.If(bv(k, 64) == Ls, V8(0), T.ch(z, z, bv(k, 64)))
        W = NameText(S, Ls, s.fold)
        low = lambda c: z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c | 32, c) if s.fold else c
        wf = SpecFn("wire_wf", [BV64, z3.BoolSort()], lambda x: z3.If(z3.UGE(x, N), z3.BoolVal(False), z3.If(
            B(x) == 0, x + 1 == N, z3.And(z3.ULE(B(x), 63), wf(x + 1 + Z64(B(x)))))))
        base = [z3.ULE(N, V(255)), z3.ULE(V(1), N), wf(z), B(z) != 0]
        vs = [fresh(n, 64) for n in ("x", "r", "o", "l")]
        printable = lambda ch: z3.And(z3.UGE(ch, 33), z3.ULE(ch, 126))

        def inv(x, r, o, l):
            return [("bounds", z3.And(z3.ULE(l + r, 63), z3.ULE(l, 63), z3.ULE(r, 63), z3.ULT(l, x), z3.ULE(V(1), l + r), z3.ULT(x + r, N), z3.ULE(x, N), z3.ULE(o, 4 * x))),
                    ("rest of the name", wf(x + r)), ("length octet", B(x - 1 - l) == z3.Extract(7, 0, l + r)),
                    ("text length", Ls == T.lni(x, r, o)), ("text length bound", z3.ULE(o, Ls)),
                    ("text", lambda k: z3.Implies(z3.ULE(o, k), T.ch(z, z, k) == T.chi(x, r, o, k))),
                    ("printable", lambda k: z3.Implies(z3.ULT(k, o), printable(T.ch(z, z, k)))),
                    ("accepted", W.ok(z, z, V(1)) == W.ok(o, l, x)), ("name length", W.total == W.len(o, x)),
                    ("octets to come", lambda k: z3.Implies(z3.ULE(x, k), W.tot(k) == W.out(o, x, k))),
                    ("octets so far", lambda k: z3.Implies(z3.And(z3.ULT(k, x), k != x - 1 - l), W.tot(k) == low(B(k)))),
                    ("label length", lambda k: z3.Implies(k == x - 1 - l, W.tot(k) == W.lab(o, l)))]
        # the remaining text has at least its dot
        P = lambda x, r, o: z3.Implies(z3.And(z3.ULE(V(1), x), z3.ULE(x, N), z3.ULE(o, 4 * x)), z3.ULE(o + 1, T.lni(x, r, o)))
        class Shim:
            pass
        c = Shim()
        c.E, c.pre = E, State()
        induct(c, "textlen", (64, 64, 64), P,
               lambda x, r, o: [(z3.And(z3.ULT(x, N), r != 0), (x + 1, r - 1, o + T.width(B(x)))), (z3.And(z3.ULT(x, N), r == 0), (x + 1, Z64(B(x)), o + 1))],
               lambda x, r, o: z3.If(z3.ULE(x, N), N - x, V(0)), assume=[z3.ULE(N, V(255))])
        T.lni.lemma = lambda app, x, r, o: [P(x, r, o)]
        x, r, o, l = vs
        dec = [DEC[i](B(x)) == dec3_def(B(x))[i] for i in range(3)]
        # unfolding the remaining text length once more bounds it from below
        steps = [(z3.And(r != 0, *dec), [x + 1, r - 1, o + T.width(B(x)), l + 1]),
                 (z3.And(r == 0, B(x) != 0), [x + 1, Z64(B(x)), o + 1, V(0)])]
        done = [(z3.And(r == 0, B(x) == 0), [("the text is accepted", W.ok(z, z, V(1))), ("same length", W.total == N),
                                             ("same octets", lambda k: z3.Implies(z3.ULT(k, N), W.tot(k) == low(B(k)))),
                                             ("printable text", lambda k: z3.Implies(z3.ULT(k, Ls), printable(T.ch(z, z, k)))),
                                             ("not the root's text", z3.Not(W.root))])]
        simulation(E, s.name, base + dec + [P(x + 1, Z64(B(x)), o + 1)], vs, inv, [V(1), Z64(B(z)), V(0), V(0)], steps, lambda x, r, o, l: N - x, done,
                   lambda x, r, o, l: [o, o + 1, o + 2, o + 3, x, x - 1 - l, z])
        # the root
        st = State()
        st.assume([N == 1, B(z) == 0])
        E.oblig(st.clone(), "lemma", z3.And(Ls == 1, T.ch(z, z, z) == 46), 0, "the root is written as a dot")
        E.oblig(st.clone(), "lemma", W.root, 0, "a dot is read as the root")


CONTRACTS = [RoundTrip("lemma_name_roundtrip_fold", True), RoundTrip("lemma_name_roundtrip", False)]
