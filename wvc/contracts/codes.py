"""Contracts of the code tables: numbers of record types, classes, response codes and opcodes against the DNS registries."""
from common import *
import externs

TYPES = [(1, "A"), (2, "NS"), (3, "MD"), (4, "MF"), (5, "CNAME"), (6, "SOA"), (7, "MB"), (8, "MG"), (9, "MR"), (10, "NULL"), (11, "WKS"), (12, "PTR"),
         (13, "HINFO"), (14, "MINFO"), (15, "MX"), (16, "TXT"), (17, "RP"), (18, "AFSDB"), (19, "X25"), (20, "ISDN"), (21, "RT"), (22, "NSAP"),
         (23, "NSAP-PTR"), (24, "SIG"), (25, "KEY"), (26, "PX"), (27, "GPOS"), (28, "AAAA"), (29, "LOC"), (30, "NXT"), (31, "EID"), (32, "NIMLOC"),
         (33, "SRV"), (34, "ATMA"), (35, "NAPTR"), (36, "KX"), (37, "CERT"), (38, "A6"), (39, "DNAME"), (40, "SINK"), (41, "OPT"), (42, "APL"),
         (43, "DS"), (44, "SSHFP"), (45, "IPSECKEY"), (46, "RRSIG"), (47, "NSEC"), (48, "DNSKEY"), (49, "DHCID"), (50, "NSEC3"), (51, "NSEC3PARAM"),
         (52, "TLSA"), (55, "HIP"), (56, "NINFO"), (57, "RKEY"), (58, "TALINK"), (59, "CDS"), (60, "CDNSKEY"), (61, "OPENPGPKEY"), (62, "CSYNC"),
         (64, "SVCB"), (65, "HTTPS"), (99, "SPF"), (100, "UINFO"), (101, "UID"), (102, "GID"), (103, "UNSPEC"), (104, "NID"), (105, "L32"),
         (106, "L64"), (107, "LP"), (108, "EUI48"), (109, "EUI64"), (249, "TKEY"), (250, "TSIG"), (251, "IXFR"), (252, "AXFR"), (253, "MAILB"),
         (254, "MAILA"), (255, "ANY"), (256, "URI"), (257, "CAA"), (32768, "TA"), (32769, "DLV")]
CLASSES = [(1, "IN"), (3, "CH"), (4, "HS"), (254, "NONE"), (255, "ANY")]
RCODES = [(0, "NOERROR"), (1, "FORMERR"), (2, "SERVFAIL"), (3, "NXDOMAIN"), (4, "NOTIMP"), (5, "REFUSED"), (6, "YXDOMAIN"), (7, "YXRRSET"),
          (8, "NXRRSET"), (9, "NOTAUTH"), (10, "NOTZONE"), (16, "BADVERS")]
OPCODES = [(0, "QUERY"), (1, "IQUERY"), (2, "STATUS"), (4, "NOTIFY"), (5, "UPDATE")]


def const_str(st, text):
    d = text.encode("latin1") + b"\0"
    b = Blk("str_" + "".join(ch if ch.isalnum() else "_" for ch in text), "const")
    b.ghost["data"] = d
    st.mem[b], st.size[b], st.live[b], st.gen[b] = base_const(d, {}), len(d), "live", 0
    return b


class ToStr(Contract):
    """the mnemonic of a number is the registry's; a number without mnemonic has none"""

    def __init__(s, name, table):
        s.name, s.table = name, table

    def setup(s, c):
        return [fresh("code", 16)]

    def outcomes(s, c):
        n = c.args[0]

        def hit(k, text):
            def o(c, m):
                m.when(eq(n, k, 16))
                if not m.verify:
                    m.ret_is(Ptr(const_str(m.st, text), 0))
                    return
                r = m.st.ret[0]
                if not (isinstance(r, Ptr) and r.blk is not None and r.blk is not POISON and r.blk.ghost.get("data") is not None and isc(r.off)):
                    raise engine_dead()
                d = r.blk.ghost["data"]
                m.ensure(d[r.off:d.index(0, r.off)] == text.encode("latin1"), "the number %d is called %s" % (k, text))
            return o

        def none(c, m):
            m.when(land(*[lnot(eq(n, k, 16)) for k, _ in s.table]))
            m.ret_is(NULL)
        return [hit(k, t) for k, t in s.table] + [none]


def engine_dead():
    from engine import Dead
    return Dead()


class FromStr(Contract):
    """a mnemonic in any letter case gives its number, a generic spelling the number it spells, anything else the not-found value"""

    def __init__(s, name, table, prefix):
        s.name, s.table, s.prefix = name, table, prefix

    def setup(s, c):
        b, L = externs.cstring(c.st, "str")
        return [Ptr(b, 0)] + ([Ptr(c.st.new("out", "arg", 2), 0)] if s.prefix is None else [])

    def bind(s, c):
        p = c.args[0]
        L = p.blk.ghost.get("strlen") if p.blk is not None else None
        if p.blk is not None and p.blk.ghost.get("data") is not None and isc(p.off):
            L = p.blk.ghost["data"].index(0, p.off)
        if L is None:
            raise Unsupported("string argument of " + s.name)
        c.L = sub(L, p.off)
        c.B = reader(c, p.blk, p.off)

    def footprint(s, c):
        return [(c.args[1].blk, c.args[1].off, add(c.args[1].off, 2))] if s.prefix is None else []

    def outcomes(s, c):
        hits = [(k, externs.casefold_is(c.B, c.L, t.encode())) for k, t in s.table]
        anyhit = lor(*[h for _, h in hits])
        val = 0
        for k, h in reversed(hits):
            val = ite(h, k, val, 16)

        def mnem(c, m):
            m.when(anyhit)
            if s.prefix is None:
                m.ret_is(0)
                m.cell_is(c.args[1].blk, c.args[1].off, 2, val)
            else:
                m.ret_is(val)

        def nofail(c, m):
            m.when(lnot(anyhit))
            m.ret_is(WDNS_RES_FAILURE)
            m.keep(c.args[1].blk, c.args[1].off, 2)

        if s.prefix is None:
            return [mnem, nofail]
        k = len(s.prefix)
        pre = land(ult(k, c.L), *[eq(externs.lower(c.B(i)), externs.lower(ord(x)), 8) for i, x in enumerate(s.prefix)])

        def other(c, m):
            m.when(lnot(anyhit))
            p = c.args[0]
            st = m.st
            e, v, blank, digit = externs.strtol_facts(c.E, st, Ptr(p.blk, add(p.off, k)), sub(c.L, k))
            generic = land(pre, digit(c.B(k)), eq(e, sub(c.L, k)), ule(v, 65535))
            m.when(lnot(land(pre, blank)))
            m.ret_is(ite(generic, trunc(v, 64, 16), 0, 16))

        def unspec(c, m):
            p = c.args[0]
            b = c.B(k)
            m.when(land(lnot(anyhit), pre, lor(*[eq(b, x, 8) for x in (9, 10, 11, 12, 13, 32, 43, 45)])))
            m.ret_any(16)
        return [mnem, other, unspec]


WDNS_RES_FAILURE = 1


class Inverse(Contract):
    """mnemonics are unique ignoring case and none is a generic spelling: the two directions are inverse to each other"""
    name = "lemma_mnemonics_unique"

    def lemma_run(s, E, C):
        from engine import State, Oblig
        st = State()
        for nm, tb, pre in (("type", TYPES, "TYPE"), ("class", CLASSES, "CLASS"), ("rcode", RCODES, None), ("opcode", OPCODES, None)):
            names = [t.lower() for _, t in tb]
            E.oblig(st, "lemma", len(set(names)) == len(names) and len({k for k, _ in tb}) == len(tb), 0, "%s mnemonics and numbers are unique" % nm)
            if pre:
                E.oblig(st, "lemma", not any(t.startswith(pre.lower()) and len(t) > len(pre) for t in names), 0, "no %s mnemonic is a generic spelling" % nm)
        a, b = C["wdns_rrtype_to_str"], C["wdns_str_to_rrtype"]
        E.oblig(st, "lemma", a.table is b.table and C["wdns_rrclass_to_str"].table is C["wdns_str_to_rrclass"].table
                and C["wdns_rcode_to_str"].table is C["wdns_str_to_rcode"].table, 0, "both directions are specified by the same table")


CONTRACTS = [ToStr("wdns_rrtype_to_str", TYPES), ToStr("wdns_rrclass_to_str", CLASSES), ToStr("wdns_rcode_to_str", RCODES), ToStr("wdns_opcode_to_str", OPCODES),
             FromStr("wdns_str_to_rrtype", TYPES, "TYPE"), FromStr("wdns_str_to_rrclass", CLASSES, "CLASS"), FromStr("wdns_str_to_rcode", RCODES, None),
             Inverse()]
