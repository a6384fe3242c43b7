"""Contracts of the record-data parser: the field layout of each type, as a recursive specification over the layout table."""
import z3
from term import *
from mem import *
from engine import Contract, Ctx, NULL, Unsupported, POISON, Oblig
from common import *
from names import NameSpec, lower, skip_spec, rest_cands

RDF = ["unknown", "bytes", "bytes_b64", "bytes_str", "name", "uname", "int8", "int16", "int32", "ipv4", "ipv6", "ipv6prefix", "eui48", "eui64",
       "string", "repstring", "rrtype", "type_bitmap", "salt", "hash", "svcparams", "edns_opt_rdata", "end"]
FIXED = dict(int8=1, int16=2, rrtype=2, int32=4, ipv4=4, ipv6=16, eui48=6, eui64=8)
REST = ("bytes", "bytes_b64", "bytes_str", "edns_opt_rdata")
STR = ("string", "salt", "hash")
ENTRY, FIRST = 12, 2


def rdf_codes(E):
    """numbers of the field kinds in the current sources"""
    r = {}
    for i, k in enumerate(RDF):
        g = E.prog.gext.get("wvc_rdf_" + k)
        r[k] = int.from_bytes(g.mod.image(g.init, g.ty)[0][:4], "little") if g is not None else i
    return r


class Descr:
    """the layout table of the current sources, as an uninterpreted function of the offset plus the facts checked here on its actual contents"""

    def __init__(s, c):
        E = c.E
        s.code = rdf_codes(E)
        p = E.glob(c.st, "record_descr_array", c.f.mod)
        s.blk = p.blk
        s.data = p.blk.ghost["data"]
        s.D = p.blk.ghost.get("tabfn")
        if s.data is None or s.D is None:
            raise Unsupported("the layout table is not constant")
        q = E.glob(c.st, "record_descr_len", c.f.mod)
        s.len = int.from_bytes(q.blk.ghost["data"], "little")
        D, end = s.D, s.code["end"]
        s.LIVE = SpecFn("live", [BV64, z3.BoolSort()], None, lemma=lambda app, x: [z3.Implies(app, z3.And(
            z3.ULT(x, V(len(s.data))), D(x) != V8(s.code["unknown"]), z3.Or(*[D(x) == V8(k) for k in sorted(s.code.values()) if k != s.code["unknown"]]), z3.Or(D(x) == V8(end), s.LIVE(x + 1))))])
        known = set(s.code.values()) - {s.code["unknown"]}
        bad = None if len(s.data) == ENTRY * s.len else "the number of entries is the table's size"
        for r in range(s.len):
            x = ENTRY * r + FIRST
            if s.data[x] == s.code["unknown"]:
                continue
            while x < len(s.data) and s.data[x] in known and s.data[x] != end:
                x += 1
            if x >= ENTRY * (r + 1) or s.data[x] != end:
                bad = "the layout of type %d is a list of known fields with an end" % r
        E.obligs.append(Oblig(E.under, "table", "record_descr_array", "FAILED" if bad else "ok", bad or "every layout in the table is a list of known fields with an end", 0))

        s.lives = {}

    def live_of(s, types):
        """like LIVE, for the layouts of some types only: only the field kinds found in those rows of the actual table"""
        if types not in s.lives:
            D, end = s.D, s.code["end"]
            kinds = {end}
            for r in types:
                x = ENTRY * r + FIRST
                while r < s.len and x < ENTRY * (r + 1) and s.data[x] not in (end, s.code["unknown"]):
                    kinds.add(s.data[x])
                    x += 1
            L = SpecFn("live", [BV64, z3.BoolSort()], None, lemma=lambda app, x: [z3.Implies(app, z3.And(
                z3.ULT(x, V(len(s.data))), z3.Or(*[D(x) == V8(k) for k in sorted(kinds)]), z3.Or(D(x) == V8(end), L(x + 1))))])
            s.lives[types] = L
        return s.lives[types]


def descr(c):
    d = c.E.__dict__.setdefault("descrcache", {})
    if "d" not in d:
        d["d"] = Descr(c)
    else:
        c.E.glob(c.st, "record_descr_array", c.f.mod)
        c.E.glob(c.st, "record_descr_len", c.f.mod)
    return d["d"]


def alpn_spec(B):
    """a list of octet strings that ends exactly at the second position"""
    AL = SpecFn("alpn", [BV64, BV64, z3.BoolSort()], lambda t, e: z3.If(z3.UGE(t, e), t == e, AL(t + 1 + Z64(B(t)), e)))
    return AL


def param_ok(key, ln, pos, AL):
    """lengths (and the list form of alpn) the service parameter's key allows; all terms 64 bits"""
    m = lambda k: z3.URem(ln, V(k)) == 0
    low = lambda k, n: z3.Extract(n - 1, 0, ln) == 0
    return z3.If(key == 0, low(2, 1), z3.If(key == 1, z3.And(ln != 0, AL(pos, pos + ln)), z3.If(key == 2, ln == 0, z3.If(key == 3, ln == 2,
           z3.If(key == 4, low(4, 2), z3.If(key == 6, low(16, 4), key != 65535))))))


class ParamValid(Contract):
    """a service parameter is accepted exactly when its value has a form its key allows"""
    name = "svcparam_key_validate"

    def setup(s, c):
        n = fresh("n", 64)
        v = c.st.new("val", "arg", n)
        return [fresh("key", 16), fresh("val_len", 16), Ptr(v, fresh("voff", 64))]

    def bind(s, c):
        c.key, c.ln, c.val = c.args
        c.key, c.ln = zext(c.key, 16, 64), zext(c.ln, 16, 64)
        B = reader(c, c.val.blk)
        c.AL = shared(c, "alpn", c.val.blk, (), lambda: alpn_spec(B))

    def requires(s, c):
        return [("the value is readable", land(ule(c.ln, c.size(c.val.blk)), ule(c.val.off, sub(c.size(c.val.blk), c.ln))))]

    def hints(s, c):
        def cands(lc):
            out = []
            e = bv(add(c.val.off, c.ln), 64)
            for p in lc.ptrs(c.val.blk):
                out.append(("al(%s)" % p.name, lambda st, p=p: c.AL(c.val.off, e) == c.AL(p.t(st), e)))
                out.append(("slop(%s)" % p.name, lambda st, p=p: ule(p.t(st), e + 256)))
            return out
        return dict(cands=[cands], ptrs=[c.val, Ptr(c.val.blk, add(c.val.off, c.ln), c.val.gen)])

    def outcomes(s, c):
        ok = param_ok(bv(c.key, 64), bv(c.ln, 64), bv(c.val.off, 64), c.AL)

        def yes(c, m):
            m.ret_is(True)
            m.when(ok)

        def no(c, m):
            m.ret_is(False)
            m.when(z3.Not(ok))
        return [yes, no]


class RdataSpec:
    """The region [s,e) of a packet against the layout that starts at table offset tp: acceptance, stored length, stored octets.
    f: at a field; b: inside a type bitmap.  i: position in the packet, o: octets stored so far."""

    def __init__(s, d, nm, B, AL, skip, e):
        D = d.D
        code = {k: V8(v) for k, v in d.code.items()}
        e = bv(e, 64)
        is_ = lambda t, ks: z3.Or(*[D(t) == code[k] for k in ks]) if not isinstance(ks, str) else D(t) == code[ks]

        def chain(t, default, *alts):
            r = default
            for ks, x in reversed(alts):
                r = z3.If(is_(t, ks), x, r)
            return r
        b2 = lambda i: z3.ZeroExt(48, z3.Concat(B(i), B(i + 1)))

        def pfx(i):
            p = B(i)
            return Z64(z3.LShR(V8(128) - p, 3) + z3.If(z3.Extract(2, 0, p) == 0, V8(0), V8(1))) + 1

        fx = [((k,), w) for k, w in FIXED.items()]
        T = z3.BoolVal(True)
        s.OKr = SpecFn("rd_okr", [BV64, z3.BoolSort()], lambda i: z3.If(i == e, T, z3.And(z3.ULE(1 + Z64(B(i)), e - i), s.OKr(i + 1 + Z64(B(i))))))
        s.OKs = SpecFn("rd_oks", [BV64, z3.BoolSort()], lambda i: z3.If(i == e, T, z3.And(z3.ULE(V(4), e - i), z3.ULE(4 + b2(i + 2), e - i),
                       param_ok(b2(i), b2(i + 2), i + 4, AL), s.OKs(i + 4 + b2(i + 2)))))
        s.OKb = SpecFn("rd_okb", [BV64, BV64, z3.BoolSort()], lambda t, i: z3.If(z3.ULT(e - i, V(2)), s.OKf(t + 1, i), z3.And(
            z3.ULE(V8(1), B(i + 1)), z3.ULE(B(i + 1), V8(32)), z3.ULE(Z64(B(i + 1)), e - i - 2), s.OKb(t, i + 2 + Z64(B(i + 1))))))
        take = lambda t, i, w: z3.And(z3.ULE(w, e - i), s.OKf(t + 1, i + w))
        s.OKf = SpecFn("rd_ok", [BV64, BV64, z3.BoolSort()], lambda t, i: z3.If(i == e, T, chain(t, z3.BoolVal(False),
            (("name", "uname"), z3.And(nm.st(i, 0), z3.ULE(skip(i), e), s.OKf(t + 1, skip(i)))), (REST, T),
            *[(k, take(t, i, V(w))) for k, w in fx], (STR, take(t, i, 1 + Z64(B(i)))),
            ("ipv6prefix", z3.And(z3.ULE(B(i), V8(128)), take(t, i, pfx(i)))), ("repstring", s.OKr(i)), ("type_bitmap", s.OKb(t, i)), ("svcparams", s.OKs(i)))), once=True)
        tailc = REST + ("repstring", "svcparams")
        s.LENb = SpecFn("rd_lenb", [BV64, BV64, BV64, BV64], lambda t, i, o: z3.If(z3.ULT(e - i, V(2)), s.LENf(t + 1, i, o), s.LENb(t, i + 2 + Z64(B(i + 1)), o + 2 + Z64(B(i + 1)))))
        ln = lambda t, i, o, w: s.LENf(t + 1, i + w, o + w)
        s.LENf = SpecFn("rd_len", [BV64, BV64, BV64, BV64], lambda t, i, o: z3.If(i == e, o, chain(t, V(0),
            (("name", "uname"), s.LENf(t + 1, skip(i), o + nm.len(i, 0))), (tailc, o + (e - i)), *[(k, ln(t, i, o, V(w))) for k, w in fx],
            (STR, ln(t, i, o, 1 + Z64(B(i)))), ("ipv6prefix", ln(t, i, o, pfx(i))), ("type_bitmap", s.LENb(t, i, o)))), once=True)
        cp = lambda t, i, o, k, w, nxt: z3.If(z3.ULT(k - o, w), B(i + (k - o)), nxt)
        s.OUTb = SpecFn("rd_outb", [BV64, BV64, BV64, BV64, BV8], lambda t, i, o, k: z3.If(z3.ULT(e - i, V(2)), s.OUTf(t + 1, i, o, k),
                        cp(t, i, o, k, 2 + Z64(B(i + 1)), s.OUTb(t, i + 2 + Z64(B(i + 1)), o + 2 + Z64(B(i + 1)), k))))
        ou = lambda t, i, o, k, w: cp(t, i, o, k, w, s.OUTf(t + 1, i + w, o + w, k))
        cpy = lambda t, i, o, k: z3.If(z3.ULT(k - o, e - i), B(i + (k - o)), V8(0))
        s.OUTf = SpecFn("rd_out", [BV64, BV64, BV64, BV64, BV8], lambda t, i, o, k: z3.If(i == e, V8(0), chain(t, V8(0),
            (("name", "uname"), z3.If(z3.ULT(k - o, nm.len(i, 0)), nm.out(i, 0, k - o), s.OUTf(t + 1, skip(i), o + nm.len(i, 0), k))), (tailc, cpy(t, i, o, k)),
            *[(k_, ou(t, i, o, k, V(w))) for k_, w in fx], (STR, ou(t, i, o, k, 1 + Z64(B(i)))), ("ipv6prefix", ou(t, i, o, k, pfx(i))), ("type_bitmap", s.OUTb(t, i, o, k)))), once=True)
        # (mode, acceptance, length, octet)
        rest = lambda t, i, o: o + (e - i)
        s.modes = [("f", s.OKf, s.LENf, s.OUTf), ("r", lambda t, i: s.OKr(i), rest, cpy), ("b", s.OKb, s.LENb, s.OUTb), ("s", lambda t, i: s.OKs(i), rest, cpy)]


def name_facts(c, nm, end, wf, B, N):
    """an acceptable name has legal labels in place, so that skipping it is exact (proved by induction)"""
    N = bv(N, 64)
    if getattr(nm, "facts", None) is None:
        nm.facts = True
        P = lambda pos, tl: z3.Implies(nm.st(pos, tl), wf(pos))
        if c.verifying:
            induct(c, "a well-formed name can be skipped", (64, 64), P,
                   lambda pos, tl: [(z3.And(z3.ULT(pos, N), B(pos) != 0, z3.ULE(B(pos), 63), z3.ULE(tl + 1 + Z64(B(pos)), V(254))), (pos + 1 + Z64(B(pos)), tl + 1 + Z64(B(pos))))],
                   lambda pos, tl: z3.If(z3.ULT(pos, N), N - pos, V(0)))
        nm.st.lemma = lambda app, pos, tl: [z3.Implies(app, wf(pos))]


def table_ptrs(c, lc, d):
    """(name, value) of the pointers into the layout table at a loop head: the moving ones, or the ones the surrounding loop left"""
    tps = [(v.name, (lambda st, v=v: bv(v.t(st), 64))) for v in lc.ptrs(d.blk)]
    if not tps:
        seen = []
        for k, v in lc.E0.frames[lc.depth].env.items():
            if isinstance(v, Ptr) and v.blk is d.blk and not isc(sub(v.off, c.tp0)) and not any(eq(v.off, o) is True for o in seen):
                seen.append(v.off)
                tps.append(("=" + k, lambda st, v=v: bv(v.off, 64)))
    return tps


def region(c, blk, nm, B, AL, end, t, cl, variant=None):
    """what the record data of type t and class cl in the region [c.s, c.e) of the packet means: c.OK, c.LEN, c.OUT"""
    d = c.d
    c.sp = shared(c, "rdata", blk, (c.n, c.e), lambda: RdataSpec(d, nm, B, AL, end, c.e), semantic=True)
    x = mul(t, ENTRY)
    D = lambda k: (bv(d.data[x + k], 8) if isc(x) and x + k < len(d.data) else d.D(add(x, k)))
    c.tp0 = add(x, FIRST)
    kn = land(ult(t, d.len), lnot(eq(D(FIRST), d.code["unknown"], 8)))
    if not isc(x):
        c.st.assume(implies(kn, d.LIVE(c.tp0)))
    rc = z3.Concat(bv(D(1), 8), bv(D(0), 8))
    if variant is not None:
        c.st.assume((rc == 0) if variant == 0 else (rc != 0))
    c.lay = land(kn, lor(rc == 0, rc == bv(cl, 16)))          # class_un, or the class the layout is for
    T0 = bv(c.tp0, 64)
    S = bv(c.s, 64)
    c.OK = lor(lnot(c.lay), c.sp.OKf(T0, S))
    c.LEN = ite(c.lay, c.sp.LENf(T0, S, V(0)), c.R)
    c.OUT = lambda k: ite(c.lay, c.sp.OUTf(T0, S, V(0), bv(k, 64)), B(S + bv(k, 64)), 8)


class ParseRdata(Contract):
    """accepted exactly when the region is the sequence of fields defined for the type (or of a type or class without layout, or ending early at a
    field boundary); the stored data is the region with its names decompressed"""
    name = "_wdns_parse_rdata"
    variants = ("layout for every class", "layout for one class")

    def setup(s, c):
        n = fresh("n", 64)
        pkt = c.st.new("pkt", "arg", n)
        rr = struct_ptr(c, "rr", 32, [(0, 4, fresh("ttl", 32)), (4, 2, fresh("type", 16)), (6, 2, fresh("class", 16)), (8, 1, fresh("nl", 8))], [(24, Ptr(POISON, 0))])
        return [Ptr(rr, 0), Ptr(pkt, 0), Ptr(pkt, n), Ptr(pkt, fresh("s", 64)), fresh("rdlen", 16)]

    def bind(s, c):
        rr, p, eop, rd, R = c.args
        if p.blk is None or p.blk is POISON or eop.blk is not p.blk or rd.blk is not p.blk or not isc(p.off) or p.off != 0:
            raise Unsupported("parse_rdata arguments")
        c.n, c.s, c.R = eop.off, rd.off, zext(R, 16, 64)
        c.e = add(c.s, c.R)
        B = c.B = reader(c, p.blk)
        d = c.d = descr(c)
        dec = c.E.decide(c.pre)
        pre = c.pre.mem[p.blk]
        nm = c.nm = shared(c, "name", p.blk, (p.off, c.n, True), lambda: NameSpec(lambda i: read_byte(pre, add(p.off, i), dec), c.n, True))
        end, wf = shared(c, "skip", p.blk, (c.n,), lambda: skip_spec(B, c.n))
        AL = shared(c, "alpn", p.blk, (), lambda: alpn_spec(B))
        c.st.assume(z3.ULE(bv(c.n, 64), V(1 << 48)))
        name_facts(c, nm, end, wf, B, c.n)
        t, cl = zext(c.rd(rr, 2, 4), 16, 64), c.rd(rr, 2, 6)
        region(c, p.blk, nm, B, AL, end, t, cl, c.v.get("variant") and s.variants.index(c.v["variant"]))

    def requires(s, c):
        rr, p, eop, rd, R = c.args
        return [("the packet range is valid", ule(c.n, c.size(p.blk))), ("the record data lies in the packet", land(ule(c.s, c.n), ule(c.R, sub(c.n, c.s))))]

    def footprint(s, c):
        rr = c.args[0]
        return [(rr.blk, add(rr.off, 24), add(rr.off, 32), "ptr")]

    def hints(s, c):
        p = c.args[1]
        sp, d = c.sp, c.d
        S, T0 = bv(c.s, 64), bv(c.tp0, 64)
        K = c.E.K

        def cands(lc):
            out = []
            outer = bool(lc.ptrs(d.blk))
            dec = c.E.decide(lc.E0)
            tps = table_ptrs(c, lc, d)
            for nm, t in tps:
                out.append(("live(%s)" % nm, lambda st, t=t: d.LIVE(t(st))))
            os_ = [v for v in lc.ints() if v.key[0] == "cell" and v.key[2] == 16 and v.key[1].kind == "heap"]
            for i in lc.ptrs(p.blk):
                I = lambda st, i=i: bv(i.t(st), 64)
                for o in os_:
                    O = lambda st, o=o: bv(o.t(st), 64)
                    out.append(("o(%s)" % i.name, lambda st, I=I, O=O: z3.And(z3.ULE(O(st), (I(st) - S) << 8))))
                for nm, t in tps:
                    for md, ok, ln, ou in sp.modes[:1] if outer else [x for x in sp.modes[1:] if dec(d.D(t(lc.E0)) == V8(d.code[dict(r="repstring", b="type_bitmap", s="svcparams")[x[0]]])) is not False]:
                        tag = "%s(%s,%s" % (md, nm, i.name)
                        out.append(("ok" + tag, lambda st, ok=ok, t=t, I=I: sp.OKf(T0, S) == ok(t(st), I(st))))
                        for o in os_:
                            O = lambda st, o=o: bv(o.t(st), 64)
                            out.append(("len" + tag, lambda st, ln=ln, t=t, I=I, O=O: sp.LENf(T0, S, V(0)) == ln(t(st), I(st), O(st))))
                            out.append(("out" + tag, lambda st, ou=ou, t=t, I=I, O=O: z3.Implies(z3.ULE(O(st), K), sp.OUTf(T0, S, V(0), K) == ou(t(st), I(st), O(st), K))))
            return out

        def vals(blk, lc):
            if blk.kind == "heap" and blk not in c.E.preblocks:
                return [lambda st, v=v: (lambda i: sp.OUTf(T0, S, V(0), bv(i, 64)), lambda i: ult(i, v.t(st))) for v in lc.vars if v.key[0] == "cell" and v.key[2] == 16 and v.key[1].kind == "heap"]

        def ranges(blk, lc):
            return [("all", lambda st: 0, lambda st: 1 << 48)] if blk.kind == "heap" and blk not in c.E.preblocks else []
        def bounds(lc):
            return [(v.name + " in region", lambda st, v=v: land(ule(c.s, v.t(st)), ule(v.t(st), c.e))) for v in lc.ptrs(p.blk)]
        return dict(lean=True, cands=[bounds, vec_cands, cands, rest_cands(p.blk, c.e)], vals=[vals], ranges=[ranges], ptrs=[Ptr(p.blk, c.e)], terms=[c.R])

    def outcomes(s, c):
        rr = c.args[0]

        def good(c, m):
            m.ret_is(0)
            m.when(land(c.OK, ule(c.LEN, 65535)))
            H = m.heap(rr.blk, add(rr.off, 24), "rdata", add(2, c.LEN))
            m.cell_is(H, 0, 2, trunc(c.LEN, 64, 16), "stored length")
            m.region(H, 2, add(2, c.LEN), lambda i: c.OUT(sub(i, 2)), "stored octets")

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(land(c.OK, ule(c.LEN, 65535))))
        return [good, bad]


# types whose names are lowered in the DNSSEC canonical form (RFC 4034 section 6.2, RFC 6840 section 5.1)
CANON = (2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 15, 17, 18, 21, 24, 26, 30, 33, 35, 36, 38, 39)


class DownSpec:
    """the record data [s,e) against the layout at table offset tp: well formed (uncompressed), and which octets belong to its names.
    e None: the end is a parameter of the functions, at(e) gives those for one end"""

    def __init__(s, d, B, e):
        D = d.D
        code = {k: V8(v) for k, v in d.code.items()}
        is_ = lambda t, ks: z3.Or(*[D(t) == code[k] for k in ks])

        def chain(t, default, *alts):
            r = default
            for ks, x in reversed(alts):
                r = z3.If(is_(t, ks), x, r)
            return r
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        fx = [((k,), lambda i, w=w: V(w)) for k, w in FIXED.items()] + [(STR, lambda i: 1 + Z64(B(i))), (("ipv6prefix",), lambda i: Z64(
            z3.LShR(V8(128) - B(i), 3) + z3.If(z3.Extract(2, 0, B(i)) == 0, V8(0), V8(1))) + 1)]
        rest = tuple(REST) + ("repstring", "svcparams", "type_bitmap")
        bodies = dict(
            OKn=lambda q, e, t, i: z3.And(z3.ULT(i, e), z3.ULE(B(i), V8(63)), z3.ULE(Z64(B(i)), e - i - 1),
                                          z3.If(B(i) == 0, q.OKf(t + 1, i + 1), q.OKn(t, i + 1 + Z64(B(i))))),
            OKf=lambda q, e, t, i: z3.If(i == e, T, chain(t, F, (("name", "uname"), q.OKn(t, i)), (rest, T),
                                         *[(k, z3.And(z3.ULE(w(i), e - i), z3.ULE(B(i), V8(128)) if k == ("ipv6prefix",) else T, q.OKf(t + 1, i + w(i)))) for k, w in fx])),
            NMn=lambda q, e, t, i, k: z3.And(z3.ULT(i, e), z3.ULE(B(i), V8(63)), z3.ULE(Z64(B(i)), e - i - 1), k != i,
                                             z3.If(B(i) == 0, q.NMf(t + 1, i + 1, k), z3.Or(z3.ULE(k - i, Z64(B(i))), q.NMn(t, i + 1 + Z64(B(i)), k)))),
            NMf=lambda q, e, t, i, k: z3.If(i == e, F, chain(t, F, (("name", "uname"), q.NMn(t, i, k)), (rest, F),
                                            *[(ks, z3.And(z3.ULE(w(i), e - i), z3.ULE(B(i), V8(128)) if ks == ("ipv6prefix",) else T, z3.UGE(k - i, w(i)), q.NMf(t + 1, i + w(i), k)))
                                              for ks, w in fx])))
        s.fns = {}
        for nm, tag, n in (("OKn", "dc_okn", 2), ("OKf", "dc_ok", 2), ("NMn", "dc_nmn", 3), ("NMf", "dc_nm", 3)):
            sorts = [BV64] * n + [z3.BoolSort()]
            if e is None:
                s.fns[nm] = SpecFn(tag, [BV64] + sorts, lambda e, *a, f=bodies[nm]: f(s.at(e), e, *a), once=nm[2] == "f")
            else:
                s.fns[nm] = SpecFn(tag, sorts, lambda *a, f=bodies[nm]: f(s, bv(e, 64), *a), once=nm[2] == "f")
        s.__dict__.update({} if e is None else s.fns)

    def at(s, e):
        q = type("view", (), {})()
        e = bv(e, 64)
        for nm, f in s.fns.items():
            setattr(q, nm, lambda *a, f=f: f(e, *a))
        return q


def down_family(fam, d):
    """the specification functions for the elements of a family of record data"""
    if not hasattr(fam, "down"):
        fam.down = DownSpec(d, lambda i: fam.fn(bv(i, 64)), None)
    return fam.down


def down_layout(c, d, t, cl):
    """(table offset of the layout, whether the canonical form lowers the names of such records)"""
    t = zext(t, 16, 64)
    x = mul(t, ENTRY)
    D = lambda k: (bv(d.data[x + k], 8) if isc(x) and x + k < len(d.data) else d.D(add(x, k)))
    kn = land(ult(t, d.len), lnot(eq(D(FIRST), d.code["unknown"], 8)))
    rc = z3.Concat(bv(D(1), 8), bv(D(0), 8))
    return add(x, FIRST), kn, land(kn, lor(*[eq(t, k) for k in CANON]), lor(rc == 0, rc == bv(cl, 16))), rc


class DowncaseRdata(Contract):
    """record data of the canonical-form types: the capitals of exactly the octets of its names are lowered; other data is left alone"""
    name = "wdns_downcase_rdata"
    variants = ("layout for every class", "layout for one class")

    def setup(s, c):
        n = fresh("size", 64)
        b = struct_ptr(c, "rdata", n)
        return [Ptr(b, 0), fresh("type", 16), fresh("class", 16)]

    def bind(s, c):
        rd, t, cl = c.args
        c.L = zext(c.rd(rd, 2), 16, 64)
        c.s = add(rd.off, 2)
        c.e = add(c.s, c.L)
        d = c.d = descr(c)
        fam = c.fam = rd.blk.ghost.get("family")
        if fam is None:
            B = c.B = reader(c, rd.blk)
            c.sp = shared(c, "down", rd.blk, (c.e,), lambda: DownSpec(d, B, c.e), semantic=True)
        else:
            B = c.B = lambda i: fam.fn(bv(i, 64))
            c.sp = down_family(fam, d).at(c.e)
        c.tp0, kn, c.lay, rc = down_layout(c, d, t, cl)
        c.LIVE = d.live_of(CANON)
        if not isc(c.tp0):
            c.st.assume(implies(land(kn, lor(*[eq(zext(t, 16, 64), k) for k in CANON])), c.LIVE(c.tp0)))
        if c.v.get("variant") is not None:
            c.st.assume((rc == 0) if c.v["variant"] == s.variants[0] else (rc != 0))
        T0, S = bv(c.tp0, 64), bv(c.s, 64)
        c.OK = lor(lnot(c.lay), c.sp.OKf(T0, S))
        c.st.assume(z3.ULE(bv(c.e, 64), V(1 << 48)))

    def requires(s, c):
        rd = c.args[0]
        if c.fam is not None:
            k = fresh("k", 64)
            return [("the data is allocated", c.fam.extent(c.E, c.st, rd.off, add(c.L, 2))),
                    ("the data of this element is as it was", implies(land(ule(c.s, k), ult(k, c.e)), eq(reader(c, rd.blk)(k), c.B(k), 8)))]
        return [("the data is allocated", land(ule(c.e, c.size(rd.blk)), ule(c.s, c.e)))]

    def footprint(s, c):
        return [(c.args[0].blk, c.s, c.e)]

    def new(s, c, k):
        return z3.If(c.sp.NMf(bv(c.tp0, 64), bv(c.s, 64), bv(k, 64)), lower(c.B(bv(k, 64))), c.B(bv(k, 64)))

    def hints(s, c):
        sp, d = c.sp, c.d
        S, T0 = bv(c.s, 64), bv(c.tp0, 64)
        K = c.E.K
        blk = c.args[0].blk

        def cands(lc):
            out = []
            outer = bool(lc.ptrs(d.blk))
            tps = table_ptrs(c, lc, d)
            for nm, t in tps:
                out.append(("live(%s)" % nm, lambda st, t=t: c.LIVE(t(st))))
            for i in lc.ptrs(blk):
                I = lambda st, i=i: bv(i.t(st), 64)
                out.append((i.name + " in region", lambda st, I=I: z3.And(z3.ULE(S, I(st)), z3.ULE(I(st), bv(c.e, 64)))))
                if i.t0() is not None:
                    out.append((i.name + " onwards", lambda st, i=i: ule(i.t0(), i.t(st))))
                for nm, t in tps:
                    for md, ok, nf in (("f", sp.OKf, sp.NMf),) if outer else (("n", sp.OKn, sp.NMn),):
                        tag = "%s(%s,%s)" % (md, nm, i.name)
                        out.append(("ok" + tag, lambda st, ok=ok, t=t, I=I: sp.OKf(T0, S) == ok(t(st), I(st))))
                        out.append(("nm" + tag, lambda st, nf=nf, t=t, I=I: z3.Implies(z3.ULE(I(st), K), sp.NMf(T0, S, K) == nf(t(st), I(st), K))))
            if not lc.ptrs(blk):
                for v in lc.ints():
                    for x in lc.inv_ints:
                        if not isc(x):
                            out.append(("%s<=%s" % (v.name, x), lambda st, v=v, x=x: ule(v.t(st), x)))
            return out

        def vals(b, lc):
            if b is blk:
                return [lambda st: (lambda i: s.new(c, i))]

        def ranges(b, lc):
            if b is not blk:
                return []
            ps = lc.ptrs(blk)
            if ps:
                return [(p.name, lambda st: c.s, lambda st, p=p: p.t(st)) for p in ps]
            return [("p+" + v.name, lambda st: c.s, lambda st, p=p, v=v: add(p.off, v.t(st))) for p in lc.inv_ptrs if p.blk is blk for v in lc.ints()]
        return dict(lean=True, early=True, cands=[cands, rest_cands(blk, c.e)], vals=[vals], ranges=[ranges], terms=[c.L])

    def outcomes(s, c):
        rd = c.args[0]

        def good(c, m):
            m.ret_is(0)
            m.when(c.OK)
            m.region(rd.blk, c.s, c.e, lambda k: ite(c.lay, s.new(c, k), c.B(bv(k, 64)), 8), "capitals in names lowered, all else kept")

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(c.OK))
            m.forall(lambda k: implies(land(ule(c.s, k), ult(k, c.e)), lor(eq(m.byte(rd.blk, k), c.B(bv(k, 64)), 8), eq(m.byte(rd.blk, k), lower(c.B(bv(k, 64))), 8))),
                     "at most capitals are lowered")
        return [good, bad]


# field layouts of the record types, from the RFCs that define them (independent of the code); IN: the layout is defined for the Internet class only
N, U, S = "name", "uname", "string"
I8, I16, I32 = "int8", "int16", "int32"
LAYOUTS = {
    1: ("IN", "ipv4"), 2: ("", N), 3: ("", N), 4: ("", N), 5: ("", N), 6: ("", N, N, I32, I32, I32, I32, I32), 7: ("", N), 8: ("", N), 9: ("", N), 10: ("", "bytes"),
    11: ("IN", I32, I8, "bytes"), 12: ("", N), 13: ("", S, S), 14: ("", N, N), 15: ("", I16, N), 16: ("", "repstring"), 17: ("", N, N), 18: ("", I16, N), 19: ("", S),
    20: ("", S, S), 21: ("", I16, N), 24: ("", I16, I8, I8, I32, I32, I32, I16, N, "bytes"), 26: ("IN", I16, N, N), 28: ("IN", "ipv6"), 30: ("", N, "bytes"),
    33: ("IN", I16, I16, I16, N), 35: ("IN", I16, I16, S, S, S, N), 36: ("IN", I16, U), 38: ("IN", "ipv6prefix", U), 39: ("", U), 41: ("", "edns_opt_rdata"),
    43: ("", I16, I8, I8, "bytes"), 46: ("", "rrtype", I8, I8, I32, I32, I32, I16, U, "bytes_b64"), 47: ("", U, "type_bitmap"), 48: ("", I16, I8, I8, "bytes_b64"),
    50: ("", I8, I8, I16, "salt", "hash", "type_bitmap"), 51: ("", I8, I8, I16, "salt"), 52: ("", I8, I8, I8, "bytes"), 59: ("", I16, I8, I8, "bytes"),
    60: ("", I16, I8, I8, "bytes_b64"), 61: ("", "bytes_b64"), 62: ("", I32, I16, "type_bitmap"), 64: ("IN", I16, N, "svcparams"), 65: ("IN", I16, N, "svcparams"),
    99: ("", "repstring"), 108: ("", "eui48"), 109: ("", "eui64"), 256: ("", I16, I16, "bytes_str"), 257: ("IN", I8, S, "bytes_str"),
}


class Layouts(Contract):
    """the layout table of the current sources gives every type the layout its RFC defines, and no layout to the others"""
    name = "lemma_record_layouts"

    def lemma_run(s, E, C):
        code = rdf_codes(E)
        kind = {v: k for k, v in code.items()}
        same = lambda k: N if k == U else k          # both are names on the wire; compression is accepted in either
        g, q = [next(m.globals[x] for m in E.prog.mods.values() if x in m.globals and not m.globals[x].external) for x in ("record_descr_array", "record_descr_len")]
        data = g.mod.image(g.init, g.ty)[0]
        n = int.from_bytes(q.mod.image(q.init, q.ty)[0], "little")
        for t in range(max(n, max(LAYOUTS) + 1)):
            row = data[ENTRY * t:ENTRY * (t + 1)] if t < n else b""
            got = []
            if row and row[FIRST] != code["unknown"]:
                got = [["", "IN"][row[0]] if row[0] < 2 and row[1] == 0 else "?"]
                for x in row[FIRST:]:
                    if x == code["end"]:
                        break
                    got.append(same(kind.get(x, "?")))
            want = [same(k) for k in LAYOUTS.get(t, ())]
            if got != want or t in LAYOUTS:
                E.obligs.append(Oblig(s.name, "lemma", t, "ok" if got == want else "FAILED", "type %d has the layout %s" % (t, " ".join(want) or "none"), 0))


class ParseRR(Contract):
    """a record at a position of the packet: its owner name, type, class, TTL and data are what the packet says there"""
    name = "_wdns_parse_message_rr"

    def setup(s, c):
        n = fresh("n", 64)
        pkt = c.st.new("pkt", "arg", n)
        rr = struct_ptr(c, "rr", 32, [], [])
        sz = c.st.new("rrsz", "arg", 8)
        return [fresh("sec", 32), Ptr(pkt, 0), Ptr(pkt, n), Ptr(pkt, fresh("s", 64)), Ptr(sz, 0), Ptr(rr, 0)]

    def bind(s, c):
        sec, p, eop, data, sz, rr = c.args
        if p.blk is None or p.blk is POISON or eop.blk is not p.blk or data.blk is not p.blk or not isc(p.off) or p.off != 0:
            raise Unsupported("parse_message_rr arguments")
        c.n, c.at = eop.off, data.off
        B = c.B = reader(c, p.blk)
        d = c.d = descr(c)
        dec = c.E.decide(c.pre)
        pre = c.pre.mem[p.blk]
        nm = c.nm = shared(c, "name", p.blk, (p.off, c.n, True), lambda: NameSpec(lambda i: read_byte(pre, add(p.off, i), dec), c.n, True))
        end, wf = shared(c, "skip", p.blk, (c.n,), lambda: skip_spec(B, c.n))
        AL = shared(c, "alpn", p.blk, (), lambda: alpn_spec(B))
        c.st.assume(z3.ULE(bv(c.n, 64), V(1 << 48)))
        name_facts(c, nm, end, wf, B, c.n)
        x = c.x = end(bv(c.at, 64))
        N = bv(c.n, 64)
        c.name_ok = land(ult(c.at, c.n), nm.st(c.at, 0))
        b2 = lambda i: z3.Concat(B(i), B(i + 1))
        c.type, c.cls, c.ttl = b2(x), b2(x + 2), z3.Concat(b2(x + 4), b2(x + 6))
        c.R = z3.ZeroExt(48, b2(x + 8))
        c.s, c.e = x + 10, x + 10 + c.R
        region(c, p.blk, nm, B, AL, end, z3.ZeroExt(48, c.type), c.cls)
        q = eq(sec, 0, 32)
        c.okq = land(q, c.name_ok, z3.ULE(V(4), N - x))
        c.okr = land(lnot(q), c.name_ok, z3.ULE(V(10), N - x), z3.ULE(c.R, N - x - 10), c.OK, ule(c.LEN, 65535))

    def requires(s, c):
        sec, p, eop, data, sz, rr = c.args
        return [("the packet range is valid", ule(c.n, c.size(p.blk))), ("the position lies in the packet", ule(c.at, c.n))]

    def footprint(s, c):
        sec, p, eop, data, sz, rr = c.args
        return [(sz.blk, sz.off, add(sz.off, 8), "cell"), (rr.blk, rr.off, add(rr.off, 16)), (rr.blk, add(rr.off, 16), add(rr.off, 24), "ptr"), (rr.blk, add(rr.off, 24), add(rr.off, 32), "ptr")]

    def outcomes(s, c):
        sec, p, eop, data, sz, rr = c.args
        o = lambda k: add(rr.off, k)

        def head(c, m):
            m.ret_is(0)
            L = c.nm.len(c.at, 0)
            m.ensure(z3.And(z3.ULE(L, 255), z3.UGE(L, 1)), "the name has 1 to 255 octets")
            m.cell_is(rr.blk, o(4), 2, c.type, "type")
            m.cell_is(rr.blk, o(6), 2, c.cls, "class")
            m.cell_is(rr.blk, o(8), 1, z3.Extract(7, 0, L), "name length")
            H = m.heap(rr.blk, o(16), "name", L)
            m.region(H, 0, L, lambda i: c.nm.out(c.at, 0, i), "owner name")

        def question(c, m):
            head(c, m)
            m.when(c.okq)
            m.cell_is(rr.blk, o(0), 4, 0, "a question has no TTL")
            m.ptr_is(rr.blk, o(24), NULL, "a question has no data")
            m.cell_is(sz.blk, sz.off, 8, c.x + 4 - bv(c.at, 64), "octets used")

        def record(c, m):
            head(c, m)
            m.when(c.okr)
            m.cell_is(rr.blk, o(0), 4, c.ttl, "TTL")
            H = m.heap(rr.blk, o(24), "rdata", add(2, c.LEN))
            m.cell_is(H, 0, 2, trunc(c.LEN, 64, 16), "stored length")
            m.region(H, 2, add(2, c.LEN), lambda i: c.OUT(sub(i, 2)), "stored octets")
            m.cell_is(sz.blk, sz.off, 8, c.e - bv(c.at, 64), "octets used")

        def bad(c, m):
            r = m.ret_any()
            m.when(lnot(eq(r, 0, 32)))
            m.when(lnot(lor(c.okq, c.okr)))
            m.keep(sz.blk, sz.off, 8)
        return [question, record, bad]


CONTRACTS = [ParamValid(), ParseRdata(), ParseRR(), DowncaseRdata(), Layouts()]
