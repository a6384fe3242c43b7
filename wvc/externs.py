"""Trusted models of the C library and compiler intrinsics (listed as assumptions in the evidence)."""
import z3
from term import *
from mem import *
import ir
from engine import *
from family import Family
import engine

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def setret(st, ins, v):
    if ins.dst is not None:
        st.frames[-1].env[ins.dst] = v


@model("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
def m_memcpy(E, st, a, ins):
    d, s, n = a[0], a[1], a[2]
    if isc(n) and n == 0:
        setret(st, ins, d)
        return None
    if not isc(n):
        # n may be zero: pointers need not be valid then
        pass
    ok1 = E.check_access(st, s, n, ins.line, "load")
    ok2 = E.check_access(st, d, n, ins.line, "store")
    if not (ok1 and ok2):
        if not isc(n) and (s.blk is None or d.blk is None):
            pass
        return []
    E.check_frame(st, d, n, ins.line)
    if s.blk is d.blk and ins.text.find("memmove") < 0:
        # overlapping memcpy is undefined
        g = lor(ule(add(s.off, n), d.off), ule(add(d.off, n), s.off))
        E.oblig(st, "overlap", g, ins.line, "memcpy source and destination do not overlap")
    if s.blk.read_fact and isc(n) and n <= 8:
        for i in range(n):
            o = add(s.off, i)
            st.assume(s.blk.read_fact(st, o, read_byte(st.mem[s.blk], o, E.decide(st))))
    E.copy(st, d.blk, d.off, st.mem[s.blk], s.off, n)
    setret(st, ins, d)
    return None


@model("llvm.memset", "memset")
def m_memset(E, st, a, ins):
    d, v, n = a[0], a[1], a[2]
    if not isc(v) or True:
        b = trunc(v, 32 if (not isc(v) and v.size() == 32) else 8, 8) if not isc(v) and v.size() != 8 else (v & 255 if isc(v) else v)
    if isc(n) and n == 0:
        setret(st, ins, d)
        return None
    if not E.check_access(st, d, n, ins.line, "store"):
        return []
    E.check_frame(st, d, n, ins.line)
    o = d.off
    if isc(n) and n <= 64 and isc(o) and isc(b) and b == 0 and n % 8 == 0 and o % 8 == 0:
        for i in range(0, n, 8):
            st.mem[d.blk] = Node(st.mem[d.blk], "int", o + i, 8, 0)
    elif isc(n) and isc(o):
        st.mem[d.blk] = Node(st.mem[d.blk], "layer", o, n, lambda i: b, lambda i: (o <= i < o + n) if isc(i) else ult(sub(i, o), n), "memset0" if isc(b) and b == 0 else "memset")
    else:
        st.mem[d.blk] = Node(st.mem[d.blk], "layer", o, n, lambda i: b, lambda i: ult(sub(i, o), n), "memset0" if isc(b) and b == 0 else "memset")
    setret(st, ins, d)
    return None


@model("malloc", "calloc")
def m_malloc(E, st, a, ins):
    if len(a) == 2:
        n = mul(a[0], a[1])
        base = base_zero()
    else:
        n, base = a[0], None
    if not isc(n):
        E.oblig(st, "alloc", ult(n, 1 << 48), ins.line, "allocation size below 2^48")
    b = Blk("heap_%s_%d" % (ins.dst, ins.line), "heap")
    st.mem[b] = base if base is not None else base_sym(b.name, lambda off: None)
    st.size[b], st.live[b], st.gen[b] = n, "live", 0
    want = (E.hints or {}).get("families")
    if want and len(a) == 2:                    # the contract says which allocation is the array of pointers to separate objects
        cnt = want(st)
        if cnt is not None and E.decide(st)(eq(n, mul(cnt, 8))) is True:
            fam = Family(E, st, b, cnt, b.name, fresh_fn(b.name, BV64, BV8), zero=True)
            E.owned |= {fam.blk, fam.present, fam.alive, fam.sizes}
    setret(st, ins, Ptr(b, 0))
    return None


@model("realloc")
def m_realloc(E, st, a, ins):
    p, n = a
    if p.blk is None:
        return m_malloc(E, st, [n], ins)
    if not E.check_access(st, p, 0, ins.line, "free"):
        return []
    if p.blk.ghost.get("family") is not None:
        raise Unsupported("reallocation of an array of separate objects")
    if p.blk.kind != "heap":
        E.oblig(st, "free", False, ins.line, "realloc of a non-heap object")
        return []
    E.oblig(st, "free", eq(p.off, 0), ins.line, "realloc of the start of an allocation")
    b = p.blk
    if b in E.preblocks and b not in E.mayfree:
        E.oblig(st, "frame", False, ins.line, "reallocation of caller-owned %s" % b)
    # success is assumed (failure aborts through the caller's assert); no object has 2^48 bytes
    st.assume(ult(n, 1 << 48) if not isc(n) else n < 1 << 48)
    E.oblig(st, "alloc", lnot(eq(n, 0)), ins.line, "reallocation to a non-zero size")
    st.size[b] = n
    st.gen[b] = st.gen[b] + 1
    setret(st, ins, Ptr(b, 0, st.gen[b]))
    return None


@model("strdup")
def m_strdup(E, st, a, ins):
    raise Unsupported("strdup")


@model("free")
def m_free(E, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.blk is None:
        return None
    if not E.check_access(st, p, 0, ins.line, "free"):
        return []
    fam = p.blk.ghost.get("family")
    if fam is not None and p.blk is fam.blk:
        fam.free(E, st, p.off, ins.line)
        return None
    if p.blk.kind != "heap":
        E.oblig(st, "free", False, ins.line, "free of a non-heap object")
        return []
    E.oblig(st, "free", eq(p.off, 0), ins.line, "free of the start of an allocation")
    if fam is not None:
        fam.free_array(E, st, ins.line)
    if p.blk in E.preblocks and p.blk not in E.mayfree:
        E.oblig(st, "frame", False, ins.line, "release of caller-owned %s" % p.blk)
    st.live[p.blk] = "freed"
    return None


@model("__assert_fail")
def m_assert(E, st, a, ins):
    E.oblig(st, "assert", False, ins.line, "assertion holds")
    return []


@model("abort")
def m_abort(E, st, a, ins):
    E.oblig(st, "abort", False, ins.line, "abort() is unreachable")
    return []


@model("fprintf", "fputs")
def m_fprintf(E, st, a, ins):
    setret(st, ins, fresh("io", 32))
    return None


@model("ntohs", "htons")
def m_ntohs(E, st, a, ins):
    v = a[0]
    setret(st, ins, ((v & 255) << 8 | v >> 8) if isc(v) else simp(z3.Concat(z3.Extract(7, 0, v), z3.Extract(15, 8, v))))
    return None


@model("ntohl", "htonl")
def m_ntohl(E, st, a, ins):
    v = a[0]
    setret(st, ins, int.from_bytes(v.to_bytes(4, "little"), "big") if isc(v) else
           simp(z3.Concat(z3.Extract(7, 0, v), z3.Extract(15, 8, v), z3.Extract(23, 16, v), z3.Extract(31, 24, v))))
    return None


@model("llvm.stacksave")
def m_stacksave(E, st, a, ins):
    setret(st, ins, Ptr(POISON, 0))
    return None


@model("llvm.stackrestore", "llvm.va_end")
def m_nop(E, st, a, ins):
    return None


def memeq(E, mp, mq):
    """specification function: n octets at offset p of the first memory equal those at offset q of the second (memcmp is tied to it)"""
    E.memeq = getattr(E, "memeq", [])
    for x, y, g in E.memeq:
        if x is mp and y is mq:
            return g
    dec = lambda c: c is True
    A, B = lambda i: bv(read_byte(mp, i, dec), 8), lambda i: bv(read_byte(mq, i, dec), 8)
    g = SpecFn("memeq", [BV64, BV64, BV64, z3.BoolSort()], lambda p, q, n: z3.If(n == 0, True, z3.And(A(p) == B(q), g(p + 1, q + 1, n - 1))))
    E.memeq.append((mp, mq, g))
    return g


@model("memcmp")
def m_memcmp(E, st, a, ins):
    p, q, n = a
    if isc(n) and n == 0:
        setret(st, ins, 0)
        return None
    if not (E.check_access(st, p, n, ins.line, "load") and E.check_access(st, q, n, ins.line, "load")):
        return []
    r = fresh("memcmp", 32)
    j = fresh("memcmp_at", 64)
    mp, mq = st.mem[p.blk], st.mem[q.blk]
    dec = E.decide(st)

    def at(i):
        return bv(read_byte(mp, add(p.off, i), dec), 8), bv(read_byte(mq, add(q.off, i), dec), 8)
    x, y = at(j)
    # r==0: equal everywhere; r!=0: j is the first difference and decides the sign
    st.assume(z3.Or(r == 0, z3.And(z3.ULT(j, bv(n, 64)), x != y, z3.If(z3.ULT(x, y), r < 0, r > 0))))

    def uni(k):
        u, v = at(k)
        return z3.Implies(z3.And(z3.ULT(bv(k, 64), bv(n, 64)), z3.Or(r == 0, z3.ULT(bv(k, 64), j))), u == v)
    for (x, y, g) in getattr(E, "memeq", []):
        if x is mp and y is mq:
            st.assume((r == 0) == g(bv(p.off, 64), bv(q.off, 64), bv(n, 64)))
        elif x is mq and y is mp:
            st.assume((r == 0) == g(bv(q.off, 64), bv(p.off, 64), bv(n, 64)))
    st.univ.append(uni)
    st.notes["memcmp"] = st.notes.get("memcmp", []) + [(r, j, p, q, n, uni)]
    setret(st, ins, r)
    return None


@model("strlen")
def m_strlen(E, st, a, ins):
    p = a[0]
    if p.blk is None:
        E.oblig(st, "load", False, ins.line, "strlen of null")
        return []
    if p.blk.ghost.get("data") is not None and isc(p.off):
        d = p.blk.ghost["data"]
        setret(st, ins, d.index(0, p.off) - p.off)
        return None
    L = p.blk.ghost.get("strlen")
    if L is not None:
        E.oblig(st, "load", ule(p.off, L), ins.line, "strlen starts inside the string")
        setret(st, ins, sub(L, p.off))
        return None
    raise Unsupported("strlen of " + repr(p))


def fmt_args(E, st, fmt):
    d = fmt.blk.ghost.get("data") if fmt.blk is not None else None
    if d is None or not isc(fmt.off):
        raise Unsupported("non-constant format string")
    return d[fmt.off:d.index(0, fmt.off)].decode("latin1")


@model("snprintf")
def m_snprintf(E, st, a, ins):
    dst, n, fmt = a[:3]
    f = fmt_args(E, st, fmt)
    if f == "\\%.3d" and isc(n) and n >= 5:
        v = a[3]
        E.oblig(st, "format", ule(v, 255, 32), ins.line, "value printed with three digits is an octet")
        if not E.check_access(st, dst, 5, ins.line, "store"):
            return []
        E.check_frame(st, dst, 5, ins.line)
        ds = dec3(v)
        for i, c in enumerate([92] + ds + [0]):
            st.mem[dst.blk] = Node(st.mem[dst.blk], "int", add(dst.off, i), 1, c)
        setret(st, ins, 4)
        return None
    raise Unsupported("snprintf format " + repr(f))


# decimal digits of an octet, three places, as characters; their values are pinned down by lemma_dec3 (contracts/names2.py)
_digit = lambda app, c: [z3.UGE(app, 48), z3.ULE(app, 57)]
DEC = [SpecFn("dec_%d" % i, [BV8, BV8], None, lemma=_digit) for i in range(3)]


def dec3_def(c):
    x = z3.ZeroExt(8, c)
    q = [z3.UDiv(x, 100), z3.URem(z3.UDiv(x, z3.BitVecVal(10, 16)), z3.BitVecVal(10, 16)), z3.URem(x, z3.BitVecVal(10, 16))]
    return [simp(z3.Extract(7, 0, y) + 48) for y in q]


def dec3(v):
    """three decimal digits of a 32-bit value below 256"""
    if isc(v):
        return [48 + v // 100, 48 + v // 10 % 10, 48 + v % 10]
    c = simp(z3.Extract(7, 0, v))
    return [f(c) for f in DEC]


# ---------------------------------------------------------------- strings
def cstring(st, name, kind="arg"):
    """an arbitrary NUL-terminated string: the block and its length"""
    L = fresh("len_" + name, 64)
    st.assume(z3.ULT(L, 1 << 40))
    b = st.new(name, kind, add(L, 1))
    b.ghost["strlen"] = L
    b.read_fact = lambda s, i, v: land(implies(ult(i, L), lnot(eq(v, 0, 8))), implies(eq(i, L), eq(v, 0, 8)))
    return b, L


def strinfo(E, st, p, line):
    """('const', bytes) or ('sym', length) for the string at p"""
    if not isinstance(p, Ptr) or p.blk is None or p.blk is POISON:
        E.oblig(st, "load", False, line, "string argument is null")
        return None
    d = p.blk.ghost.get("data")
    if d is not None and isc(p.off):
        return "const", d[p.off:d.index(0, p.off)]
    L = p.blk.ghost.get("strlen")
    if L is not None:
        if not E.check_access(st, p, 1, line, "load"):
            return None
        E.oblig(st, "load", ule(p.off, L), line, "string starts before its terminator")
        return "sym", sub(L, p.off)
    raise Unsupported("string " + repr(p))


def lower(b):
    if isc(b):
        return b + 32 if 65 <= b <= 90 else b
    return z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b | 32, b)


def casefold_is(rd, n, const):
    """the string (length n, bytes rd(i)) equals const ignoring ASCII case"""
    return land(eq(n, len(const)), *[eq(lower(rd(i)), lower(c), 8) for i, c in enumerate(const)])


def mem_reader(E, st, p):
    node, dec = st.mem[p.blk], E.decide(st)
    return lambda i: bv(read_byte(node, add(p.off, i), dec), 8)


@model("strcasecmp")
def m_strcasecmp(E, st, a, ins):
    x, y = strinfo(E, st, a[0], ins.line), strinfo(E, st, a[1], ins.line)
    if x is None or y is None:
        return []
    if x[0] == "const" and y[0] == "const":
        u, v = x[1].lower(), y[1].lower()
        setret(st, ins, 0 if u == v else (M(32) if u < v else 1))
        return None
    r = fresh("strcasecmp", 32)
    if x[0] == "sym" and y[0] == "sym":
        raise Unsupported("strcasecmp of two unknown strings")
    (p, n), c = ((a[0], x[1]), y[1]) if x[0] == "sym" else ((a[1], y[1]), x[1])
    st.assume(zb(casefold_is(mem_reader(E, st, p), n, c)) == (r == 0))
    setret(st, ins, r)
    return None


@model("strncasecmp")
def m_strncasecmp(E, st, a, ins):
    if not isc(a[2]):
        raise Unsupported("strncasecmp of unknown length")
    x, y = strinfo(E, st, a[0], ins.line), strinfo(E, st, a[1], ins.line)
    if x is None or y is None:
        return []
    if x[0] == "sym" and y[0] == "sym":
        raise Unsupported("strncasecmp of two unknown strings")
    r = fresh("strncasecmp", 32)
    if x[0] == y[0]:
        st.assume((r == 0) == (x[1][:a[2]].lower() == y[1][:a[2]].lower()))
        setret(st, ins, r)
        return None
    (p, n), c = ((a[0], x[1]), y[1]) if x[0] == "sym" else ((a[1], y[1]), x[1])
    k = min(a[2], len(c))
    rd = mem_reader(E, st, p)
    e = land(ule(k, n) if a[2] <= len(c) else eq(n, k), *[eq(lower(rd(i)), lower(c[i]), 8) for i in range(k)])
    st.assume(zb(e) == (r == 0))
    setret(st, ins, r)
    return None


def strtol_facts(E, st, p, n):
    """end offset and value strtol(…, 10) gives for the string at p of length n; both are the same terms for the same string"""
    key = ("strtol", p.blk, p.off if isc(p.off) else p.off.get_id())
    if key not in p.blk.ghost:
        p.blk.ghost[key] = (fresh("strtol_end", 64), fresh("strtol_val", 64), p.off)
    e, v, _ = p.blk.ghost[key]
    rd = mem_reader(E, st, p)
    digit = lambda b: land(ule(48, b, 8), ule(b, 57, 8))
    first = rd(0)
    blank = lor(*[eq(first, x, 8) for x in (9, 10, 11, 12, 13, 32, 43, 45)])
    st.assume(ule(e, n))
    st.assume(implies(lnot(blank), land(lnot(digit(rd(e))), sle(0, v), implies(eq(e, 0), eq(v, 0)))))
    st.assume(implies(digit(first), ule(1, e)))
    st.assume(implies(land(lnot(digit(first)), lnot(blank)), eq(e, 0)))
    st.univ.append(lambda k: implies(land(lnot(blank), ult(k, e)), digit(rd(k))))
    return e, v, blank, digit


@model("strtol", "__isoc23_strtol", "__isoc99_strtol")
def m_strtol(E, st, a, ins):
    p, ep, base = a
    if base == 10 and isinstance(p, Ptr) and p.blk not in (None, POISON) and p.blk.kind == "stack" and isc(p.off) and isc(st.size[p.blk]):
        # a short text assembled in a local array: digits, then the terminator
        dec = E.decide(st)
        ds, i = [], p.off
        while i < st.size[p.blk] and len(ds) < 10:
            b = read_byte(st.mem[p.blk], i, dec)
            if isc(b) and b == 0:
                break
            if not dec(zb(land(ule(48, b, 8), ule(b, 57, 8)))):
                raise Unsupported("strtol of a text that is not known to be digits")
            ds.append(b)
            i += 1
        else:
            raise Unsupported("strtol of an unterminated array")
        if not ds:
            raise Unsupported("strtol of an empty text")
        v = 0
        for b in ds:
            v = add(mul(v, 10), zext(sub(b, 48, 8), 8, 64))
        if ep.blk is not None:
            if not E.check_access(st, ep, 8, ins.line, "store"):
                return []
            E.check_frame(st, ep, 8, ins.line)
            st.mem[ep.blk] = Node(st.mem[ep.blk], "ptr", ep.off, 8, Ptr(p.blk, i, p.gen))
        setret(st, ins, v)
        return None
    x = strinfo(E, st, p, ins.line)
    if x is None:
        return []
    if x[0] != "sym" or base != 10:
        raise Unsupported("strtol")
    e, v, blank, digit = strtol_facts(E, st, p, x[1])
    if ep.blk is not None:
        if not E.check_access(st, ep, 8, ins.line, "store"):
            return []
        E.check_frame(st, ep, 8, ins.line)
        st.mem[ep.blk] = Node(st.mem[ep.blk], "ptr", ep.off, 8, Ptr(p.blk, add(p.off, e), p.gen))
    setret(st, ins, v)
    return None


# ---------------------------------------------------------------- comparator based searching and sorting
def subrun(E, st, fn, mod, args):
    """execute fn on args to its return: [(facts, return value)]"""
    if not isinstance(fn, FnPtr):
        raise Unsupported("comparator is not a known function")
    f = E.prog.func(fn.name, mod)
    if f is None:
        raise Unsupported("comparator " + fn.name)
    E.inlined.add(fn.name)
    t = st.clone()
    fr = engine.Frame(f, 0)
    for (pn, pt), a in zip(f.params, args):
        fr.env[pn] = a
    t.frames = [fr]
    rets, _, _ = E.run([t])
    return rets


@model("bsearch")
def m_bsearch(E, st, a, ins):
    key, base, n, sz, cmp = a
    mod = st.frames[-1].f.mod
    if not (isc(n) and isc(sz) and isc(base.off)) or base.blk is None:
        raise Unsupported("bsearch of unknown dimensions")
    if not E.check_access(st, base, n * sz, ins.line, "load"):
        return []
    elem = lambda i: Ptr(base.blk, base.off + i * sz, base.gen)
    ordered = True
    for i in range(n - 1):
        rs = subrun(E, st, cmp, mod, [elem(i), elem(i + 1)])
        ordered = land(ordered, *[implies(land(*r.pc[len(st.pc):]), slt(r.ret[0], 0, 32)) for r in rs])
    E.oblig(st, "pre", ordered, ins.line, "bsearch: the table is strictly ascending in the order of the comparison function")
    out = []
    miss = st.clone()
    for i in range(n):
        rs = subrun(E, st, cmp, mod, [key, elem(i)])
        for r in rs:
            d = r.pc[len(st.pc):]
            h = st.clone()
            h.assume(list(d))
            h.assume(eq(r.ret[0], 0, 32))
            if E.feasible(h):
                setret(h, ins, elem(i))
                out.append(h)
        if len(rs) == 1:
            miss.assume(list(rs[0].pc[len(st.pc):]))
            miss.assume(lnot(eq(rs[0].ret[0], 0, 32)))
        else:
            miss.assume(lor(*[land(*([zb(x) for x in r.pc[len(st.pc):]] + [zb(lnot(eq(r.ret[0], 0, 32)))])) for r in rs]))
    setret(miss, ins, NULL)
    if E.feasible(miss):
        out.append(miss)
    return out


@model("qsort")
def m_qsort(E, st, a, ins):
    base, n, sz, cmp = a
    if not isc(sz):
        raise Unsupported("qsort of unknown element size")
    if not E.check_access(st, base, mul(n, sz), ins.line, "store"):
        return []
    h = base.blk.ghost.get("qsort_elem")
    if h is None:
        raise Unsupported("qsort of unknown elements")
    E.check_frame(st, base, mul(n, sz), ins.line)
    h(E, st, a, ins)
    st.notes["qsort"] = st.notes.get("qsort", ()) + ((base, n, sz),)
    return None
