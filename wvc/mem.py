"""Memory: structurally separated blocks, each a persistent chain of writes."""
import z3
from term import *


class Unsupported(Exception):
    pass


class Blk:
    _n = [0]

    def __init__(s, name, kind, esz=1):
        Blk._n[0] += 1
        s.id = Blk._n[0]
        s.name, s.kind = name, kind      # kind: arg stack heap global const
        s.base = None
        s.read_fact = None               # fn(state, idx, byte) -> list of facts
        s.esz = esz
        s.ghost = {}

    def addr(s):
        if s.base is None:
            s.base = fresh("addr_" + s.name, 64)
        return s.base

    def __repr__(s):
        return "<%s#%d>" % (s.name, s.id)


class Ptr:
    __slots__ = ("blk", "off", "gen")

    def __init__(s, blk, off=0, gen=0):
        s.blk, s.off, s.gen = blk, off, gen

    def __repr__(s):
        return "Ptr(%s,%s)" % (s.blk, s.off)


NULL = Ptr(None, 0)


class FnPtr:
    def __init__(s, name):
        s.name = name


class Node:
    __slots__ = ("prev", "k", "off", "n", "val", "guard", "label", "depth")

    def __init__(s, prev, k, off=None, n=0, val=None, guard=None, label=""):
        s.prev, s.k, s.off, s.n, s.val, s.guard, s.label = prev, k, off, n, val, guard, label
        s.depth = (prev.depth + 1) if prev is not None else 0


def base_sym(name, ptrhook=None):
    """unknown contents: one fresh function"""
    f = fresh_fn(name, BV64, BV8)
    return Node(None, "base", val=lambda i: f(bv(i, 64)), guard=ptrhook, label="sym")


def base_fn(fn, ptrhook=None, label="fn"):
    return Node(None, "base", val=fn, guard=ptrhook, label=label)


def base_zero():
    return Node(None, "base", val=lambda i: 0, guard=lambda off: NULL, label="zero")


def base_const(data, rel):
    """data bytes; rel: dict off -> Ptr"""
    def rd(i):
        if isc(i):
            return data[i] if 0 <= i < len(data) else 0
        return table(data, i)

    def ph(off):
        if isc(off):
            return rel.get(off, NULL if data[off:off + 8] == bytes(8) else None)
        return None
    return Node(None, "base", val=rd, guard=ph, label="const")


_tabs = {}


def table(data, i):
    """balanced ite over the (used) index bits"""
    n = len(data)
    bits = max(1, (n - 1).bit_length())
    key = (data, i.get_id())
    if key in _tabs:
        return _tabs[key][1]

    def rec(b, lo):
        if lo >= n:
            return z3.BitVecVal(0, 8)
        seg = data[lo:lo + (1 << b)]
        if seg == seg[:1] * len(seg):
            return z3.BitVecVal(seg[0], 8)
        h = rec(b - 1, lo + (1 << (b - 1)))
        l = rec(b - 1, lo)
        return z3.If(z3.Extract(b - 1, b - 1, i) == 1, h, l)
    r = rec(bits, 0)
    _tabs[key] = (i, r)
    return r


def read_byte(node, idx, decide=None):
    conds = []
    res = None
    while True:
        k = node.k
        if k == "base":
            res = node.val(idx)
            break
        if k == "int":
            d = sub(idx, node.off)
            if isc(d):
                if d < node.n:
                    res = extract_byte(node.val, d, node.n)
                    break
            else:
                c = ult(d, node.n)
                if c is True:
                    if node.n == 1:
                        res = extract_byte(node.val, 0, 1)
                        break
                if c is not False:
                    if node.n == 1:
                        v = node.val
                    else:
                        v = extract_byte(node.val, node.n - 1, node.n)
                        for j in range(node.n - 2, -1, -1):
                            v = ite(eq(d, j), extract_byte(node.val, j, node.n), v, 8)
                    if c is True:
                        res = v
                        break
                    conds.append((c, v))
        elif k == "ptr":
            d = sub(idx, node.off)
            if isc(d):
                if d < 8:
                    raise Unsupported("byte read of a pointer cell")
            else:
                c = ult(d, 8)
                if c is not False and not (decide and decide(lnot(c))):
                    raise Unsupported("byte read may overlap a pointer cell")
        elif k == "layer":
            c = node.guard(idx)
            if c is True:
                res = node.val(idx)
                break
            if c is not False:
                conds.append((c, node.val(idx)))
        node = node.prev
    for c, v in reversed(conds):
        res = ite(c, v, res, 8)
    return res


def read_int(node, off, n, decide=None):
    if n == 1:
        return read_byte(node, off, decide)
    nd = node
    while True:
        if nd.k == "int":
            d = sub(off, nd.off)
            if isc(d):
                if d == 0 and nd.n == n:
                    return nd.val
                if d < nd.n or d > M(64) - n + 1:
                    break      # overlap
            else:
                # disjoint?
                c = land(ule(nd.n, d), ule(n, sub(nd.off, off)))
                if c is not True and not (decide and decide(c)):
                    if decide and nd.n == n and decide(eq(d, 0)):
                        return nd.val
                    break
        elif nd.k == "ptr":
            d = sub(off, nd.off)
            if isc(d):
                if d == 0 and n == 8:
                    return nd.val          # caller converts pointer to integer
                if d < 8 or d > M(64) - n + 1:
                    raise Unsupported("int read overlaps a pointer cell")
            else:
                c = land(ule(8, d), ule(n, sub(nd.off, off)))
                if c is not True and not (decide and decide(c)):
                    raise Unsupported("int read may overlap a pointer cell")
        elif nd.k == "layer":
            if not all(nd.guard(add(off, i)) is False for i in range(n)):
                if not (decide and decide(lnot(lor([nd.guard(add(off, i)) for i in range(n)])))):
                    break
        elif nd.k == "base":
            break
        nd = nd.prev
    return concat([read_byte(nd, add(off, i), decide) for i in range(n)])


def read_ptr(node, off, decide=None):
    nd = node
    while True:
        if nd.k == "ptr":
            d = sub(off, nd.off)
            if isc(d):
                if d == 0:
                    return nd.val
                if d < 8 or d > M(64) - 7:
                    raise Unsupported("misaligned pointer read")
            else:
                if decide and decide(eq(d, 0)):
                    return nd.val
                if not (decide and decide(land(ule(8, d), ule(8, sub(nd.off, off))))):
                    raise Unsupported("ambiguous pointer read")
        elif nd.k == "int":
            d = sub(off, nd.off)
            if isc(d):
                if d == 0 and nd.n == 8:
                    if nd.val == 0 and isc(nd.val):
                        return NULL
                    raise Unsupported("pointer read of integer cell")
                if d < nd.n or d > M(64) - 7:
                    raise Unsupported("pointer read overlaps integer cell")
            elif not (decide and decide(land(ule(nd.n, d), ule(8, sub(nd.off, off))))):
                raise Unsupported("ambiguous pointer read (int)")
        elif nd.k == "layer":
            g = nd.guard(off)
            g7 = nd.guard(add(off, 7))
            if g is False and g7 is False:
                pass
            elif nd.label == "memset0" and (land(g, g7) is True or (decide and decide(land(g, g7)))):
                return NULL
            elif decide and decide(lnot(lor(g, g7))):
                pass
            elif getattr(nd.val, "ptrhook", None):
                return nd.val.ptrhook(off)
            else:
                raise Unsupported("pointer read from byte region %s" % nd.label)
        elif nd.k == "base":
            if nd.guard is None:
                raise Unsupported("pointer read of untyped memory")
            r = nd.guard(off)
            if r is None:
                raise Unsupported("pointer read of untyped memory at %s" % off)
            return r
        nd = nd.prev
