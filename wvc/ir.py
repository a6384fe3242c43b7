"""Parser for the subset of LLVM-18 textual IR that clang+sroa emits for this code base."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<str>c"(?:[^"\\]|\\.)*")|
  (?P<qid>[%@]"[^"]*")|
  (?P<id>[%@][-a-zA-Z$._0-9]+)|
  (?P<meta>![-a-zA-Z$._0-9]*)|
  (?P<attr>\#\d+)|
  (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
  (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)|
  (?P<dots>\.\.\.)|
  (?P<q>"[^"]*")|
  (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise SyntaxError("tok: " + s[i:i + 60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "packed", "name")

    def __init__(s, k, w=0, n=0, el=None, fields=None, packed=False, name=None):
        s.k, s.w, s.n, s.el, s.fields, s.packed, s.name = k, w, n, el, fields, packed, name

    def __repr__(s):
        if s.k == "int":
            return "i%d" % s.w
        if s.k == "arr":
            return "[%d x %r]" % (s.n, s.el)
        if s.k == "struct":
            return s.name or "{%s}" % ",".join(map(repr, s.fields))
        return s.k


PTR = Ty("ptr")
VOID = Ty("void")


class Const:
    """constant operand: kinds int(v), null, undef, global(name), str(bytes), agg(list), zero, gep(base,off)"""
    __slots__ = ("k", "v", "ty")

    def __init__(s, k, v=None, ty=None):
        s.k, s.v, s.ty = k, v, ty

    def __repr__(s):
        return "C(%s,%r)" % (s.k, s.v)


class Local:
    __slots__ = ("name",)

    def __init__(s, n):
        s.name = n

    def __repr__(s):
        return "%" + s.name


class Instr:
    __slots__ = ("op", "dst", "ty", "args", "x", "line", "text")

    def __init__(s, op, dst, ty, args, x=None):
        s.op, s.dst, s.ty, s.args, s.x, s.line, s.text = op, dst, ty, args, x, 0, ""

    def __repr__(s):
        return s.text


class Block:
    def __init__(s, name):
        s.name = name
        s.phis = []
        s.instrs = []
        s.preds = []

    @property
    def term(s):
        return s.instrs[-1]

    def succs(s):
        t = s.term
        if t.op == "br":
            return [t.x[0]] if len(t.x) == 1 else list(t.x)
        if t.op == "switch":
            return [t.x[0]] + [l for _, l in t.x[1]]
        return []


class Func:
    def __init__(s, mod, name, ret, params, internal):
        s.mod, s.name, s.ret, s.params, s.internal = mod, name, ret, params, internal
        s.blocks = {}
        s.order = []
        s.vararg = False
        s.loops = {}     # header -> set(blocks)
        s.file = ""

    def __repr__(s):
        return "Func(%s:%s)" % (s.mod.name, s.name)


PARAM_ATTRS = {"noundef", "zeroext", "signext", "nocapture", "readonly", "writeonly", "noalias", "nonnull", "immarg",
               "returned", "dso_local", "local_unnamed_addr", "unnamed_addr", "nofree", "inreg", "readnone"}


class P:
    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod

    def peek(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else (None, None)

    def next(s):
        r = s.peek()
        s.i += 1
        return r

    def eat(s, v):
        if s.peek()[1] == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        g = s.next()
        if g[1] != v:
            raise SyntaxError("expected %r got %r in %r" % (v, g, s.t[max(0, s.i - 6):s.i + 6]))

    def type(s):
        k, v = s.next()
        if k == "word":
            if v == "ptr":
                t = PTR
            elif v == "void":
                t = VOID
            elif re.match(r"^i\d+$", v):
                t = Ty("int", int(v[1:]))
            elif v in ("double", "float", "x86_fp80", "label", "metadata"):
                t = Ty(v)
            else:
                raise SyntaxError("type " + v)
        elif v == "[":
            n = int(s.next()[1])
            s.expect("x")
            e = s.type()
            s.expect("]")
            t = Ty("arr", n=n, el=e)
        elif v == "{":
            f = []
            if not s.eat("}"):
                while True:
                    f.append(s.type())
                    if s.eat("}"):
                        break
                    s.expect(",")
            t = Ty("struct", fields=f)
        elif v == "<":
            if s.peek()[1] == "{":
                s.next()
                f = []
                while True:
                    f.append(s.type())
                    if s.eat("}"):
                        break
                    s.expect(",")
                s.expect(">")
                t = Ty("struct", fields=f, packed=True)
            else:
                raise SyntaxError("vector type")
        elif k in ("id", "qid") and v[0] == "%":
            t = s.mod.types.get(unq(v[1:]))
            if t is None:
                t = Ty("struct", fields=None, name=unq(v[1:]))
                s.mod.types[unq(v[1:])] = t
        else:
            raise SyntaxError("type tok %r" % (v,))
        if s.peek()[1] == "(":   # function type, skip
            d = 0
            while True:
                x = s.next()[1]
                if x == "(":
                    d += 1
                if x == ")":
                    d -= 1
                    if d == 0:
                        break
        return t

    def attrs(s):
        while True:
            k, v = s.peek()
            if k == "word" and v in PARAM_ATTRS:
                s.i += 1
            elif k == "word" and v == "align":
                s.i += 2
            elif k == "word" and v in ("dereferenceable", "dereferenceable_or_null", "memory", "allocsize", "byval", "sret"):
                s.i += 1
                s.expect("(")
                d = 1
                while d:
                    x = s.next()[1]
                    d += (x == "(") - (x == ")")
            elif k == "attr":
                s.i += 1
            else:
                return

    def value(s, ty):
        k, v = s.next()
        if k in ("id", "qid"):
            n = unq(v[1:])
            return Local(n) if v[0] == "%" else Const("global", n, PTR)
        if k == "num":
            return Const("int", int(v), ty) if "." not in v else Const("float", float(v), ty)
        if k == "str":
            return Const("str", unesc(v[2:-1]), ty)
        if k == "word":
            if v == "null":
                return Const("null", None, PTR)
            if v in ("undef", "poison"):
                return Const("undef", None, ty)
            if v == "true":
                return Const("int", 1, ty)
            if v == "false":
                return Const("int", 0, ty)
            if v == "zeroinitializer":
                return Const("zero", None, ty)
            if v == "getelementptr":
                s.eat("inbounds")
                s.expect("(")
                bt = s.type()
                s.expect(",")
                s.type()
                base = s.value(PTR)
                idx = []
                while s.eat(","):
                    it = s.type()
                    idx.append(s.value(it))
                s.expect(")")
                return Const("gep", (bt, base, idx), PTR)
            if v in ("bitcast", "inttoptr", "ptrtoint"):
                s.expect("(")
                t = s.type()
                x = s.value(t)
                s.expect("to")
                s.type()
                s.expect(")")
                return x
            raise SyntaxError("const word " + v)
        if v == "[" or v == "{" or v == "<":
            packed = False
            if v == "<":
                s.expect("{")
                packed = True
            close = {"[": "]", "{": "}", "<": "}"}[v]
            el = []
            if not s.eat(close):
                while True:
                    t = s.type()
                    el.append(s.value(t))
                    if s.eat(close):
                        break
                    s.expect(",")
            if packed:
                s.expect(">")
            return Const("agg", el, ty)
        raise SyntaxError("value %r %r" % (k, v))

    def tv(s):
        t = s.type()
        s.attrs()
        return t, s.value(t)


def unq(x):
    return x[1:-1] if x.startswith('"') else x


def unesc(x):
    out = bytearray()
    i = 0
    while i < len(x):
        if x[i] == "\\":
            if x[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(x[i]))
            i += 1
    return bytes(out)


class Global:
    def __init__(s, mod, name, ty, const, init, external, internal):
        s.mod, s.name, s.ty, s.const, s.init, s.external, s.internal = mod, name, ty, const, init, external, internal


class Module:
    def __init__(s, name):
        s.name = name
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.decls = {}
        s.lines = {}
        s.source = ""

    # -- layout
    def sizeof(s, t):
        if t.k == "int":
            return max(1, (t.w + 7) // 8) if t.w <= 64 else 16
        if t.k == "ptr":
            return 8
        if t.k == "double":
            return 8
        if t.k == "x86_fp80":
            return 16
        if t.k == "float":
            return 4
        if t.k == "arr":
            return t.n * s.sizeof(t.el)
        if t.k == "struct":
            off = 0
            for f in t.fields:
                if not t.packed:
                    a = s.align(f)
                    off = (off + a - 1) // a * a
                off += s.sizeof(f)
            if not t.packed:
                a = s.align(t)
                off = (off + a - 1) // a * a
            return off
        raise SyntaxError("sizeof %r" % t)

    def align(s, t):
        if t.k == "arr":
            return s.align(t.el)
        if t.k == "struct":
            return 1 if t.packed or not t.fields else max(s.align(f) for f in t.fields)
        return s.sizeof(t)

    def fieldoff(s, t, i):
        off = 0
        for j, f in enumerate(t.fields):
            if not t.packed:
                a = s.align(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s.sizeof(f)
        raise IndexError

    def image(s, c, ty):
        """(bytes, [(off, Const-ptr)]) of a constant"""
        n = s.sizeof(ty)
        if c.k in ("zero", "null", "undef"):
            return bytes(n), []
        if c.k == "int":
            return (c.v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"), []
        if c.k == "str":
            return c.v, []
        if c.k in ("global", "gep"):
            return bytes(n), [(0, c)]
        if c.k == "agg":
            buf = bytearray(n)
            rel = []
            for i, e in enumerate(c.v):
                if ty.k == "arr":
                    o, et = i * s.sizeof(ty.el), ty.el
                else:
                    o, et = s.fieldoff(ty, i), ty.fields[i]
                b, r = s.image(e, et)
                buf[o:o + len(b)] = b
                rel += [(o + x, y) for x, y in r]
            return bytes(buf), rel
        raise SyntaxError("image %r" % c)


ICMP_CALL_SKIP = ("llvm.dbg.", "llvm.lifetime", "llvm.stackrestore")


def parse_module(path, name):
    m = Module(name)
    lines = open(path).read().split("\n")
    i = 0
    # types first (forward refs)
    for l in lines:
        if l.startswith("%") and " = type " in l:
            nm, d = l.split(" = type ", 1)
            nm = unq(nm[1:])
            t = m.types.get(nm) or Ty("struct", fields=None, name=nm)
            m.types[nm] = t
            if d.strip() == "opaque":
                t.fields = []
                continue
            tt = P(tokenize(d), m).type()
            t.fields, t.packed = tt.fields, tt.packed
        elif l.startswith("source_filename"):
            m.source = l.split('"')[1]
        else:
            mm = re.match(r"^(!\d+) = (?:distinct )?!DILocation\(line: (\d+)", l)
            if mm:
                m.lines[mm.group(1)] = int(mm.group(2))
    while i < len(lines):
        l = lines[i]
        if l.startswith("@"):
            parse_global(m, l)
        elif l.startswith("declare"):
            mm = re.search(r"@([-a-zA-Z$._0-9]+)\(", l)
            m.decls[mm.group(1)] = l
        elif l.startswith("define"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            parse_func(m, l, lines[i + 1:j])
            i = j
        i += 1
    return m


def parse_global(m, l):
    mm = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
    name, rest = unq(mm.group(1)), mm.group(2)
    words = []
    p = P(tokenize(rest), m)
    external = internal = False
    const = None
    while True:
        k, v = p.peek()
        if v in ("constant", "global"):
            const = v == "constant"
            p.next()
            break
        if v == "alias":
            return
        if v == "external":
            external = True
        if v in ("internal", "private"):
            internal = True
        p.next()
    ty = p.type()
    init = None
    if not external:
        init = p.value(ty)
    m.globals[name] = Global(m, name, ty, const, init, external, internal)


def parse_func(m, head, body):
    toks = tokenize(head)
    p = P(toks, m)
    p.expect("define")
    internal = False
    while p.peek()[1] in ("dso_local", "internal", "noundef", "zeroext", "signext", "hidden", "noalias", "nonnull", "available_externally"):
        if p.peek()[1] == "internal":
            internal = True
        p.next()
    ret = p.type()
    k, v = p.next()
    name = unq(v[1:])
    p.expect("(")
    params = []
    vararg = False
    if not p.eat(")"):
        while True:
            if p.peek()[0] == "dots":
                p.next()
                vararg = True
            else:
                t = p.type()
                p.attrs()
                k, v = p.next()
                params.append((unq(v[1:]), t))
            if p.eat(")"):
                break
            p.expect(",")
    f = Func(m, name, ret, params, internal)
    f.vararg = vararg
    m.funcs[name] = f
    cur = None
    k = 0
    while k < len(body):
        l = body[k]
        k += 1
        if not l.strip() or l.lstrip().startswith(";"):
            continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if mm:
            cur = Block(unq(mm.group(1)))
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            continue
        l = l.strip()
        if l.startswith("switch") and l.endswith("["):
            while not body[k].strip().startswith("]"):
                l += " " + body[k].strip()
                k += 1
            l += " " + body[k].strip()
            k += 1
        if cur is None:
            cur = Block("entry")
            f.blocks["entry"] = cur
            f.order.append("entry")
        ins = parse_instr(m, l)
        if ins is None:
            continue
        if ins.op == "phi":
            cur.phis.append(ins)
        else:
            cur.instrs.append(ins)
    for b in f.blocks.values():
        for s2 in dict.fromkeys(b.succs()):
            f.blocks[s2].preds.append(b.name)
    analyse_loops(f)


def parse_instr(m, l):
    dm = re.search(r", !dbg (!\d+)", l)
    line = m.lines.get(dm.group(1), 0) if dm else 0
    text = re.sub(r"(, )?!(dbg|llvm\.loop|tbaa|srcloc|range|noundef) !\d+", "", l)
    p = P(tokenize(text), m)
    dst = None
    if p.peek()[0] in ("id", "qid") and p.peek(1)[1] == "=":
        dst = unq(p.next()[1][1:])
        p.next()
    op = p.next()[1]
    ins = Instr(op, dst, None, [])
    ins.line, ins.text = line, text
    if op in ("tail", "musttail", "notail"):
        op = p.next()[1]
        ins.op = op
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
        fl = set()
        while p.peek()[1] in ("nsw", "nuw", "exact", "disjoint"):
            fl.add(p.next()[1])
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(",")
        b = p.value(ins.ty)
        ins.args = [a, b]
        ins.x = fl
    elif op == "icmp":
        ins.x = p.next()[1]
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(",")
        ins.args = [a, p.value(ins.ty)]
    elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
        if p.peek()[1] == "nneg":
            p.next()
        t, v = p.tv()
        p.expect("to")
        ins.ty = p.type()
        ins.x = t
        ins.args = [v]
    elif op == "freeze":
        t, v = p.tv()
        ins.ty = t
        ins.args = [v]
    elif op == "select":
        _, c = p.tv()
        p.expect(",")
        t, a = p.tv()
        p.expect(",")
        _, b = p.tv()
        ins.ty = t
        ins.args = [c, a, b]
    elif op == "phi":
        ins.ty = p.type()
        ins.x = []
        while True:
            p.expect("[")
            v = p.value(ins.ty)
            p.expect(",")
            b = p.next()[1]
            p.expect("]")
            ins.x.append((v, unq(b[1:])))
            if not p.eat(","):
                break
    elif op == "alloca":
        ins.ty = p.type()
        ins.args = [Const("int", 1, Ty("int", 64))]
        if p.eat(",") and p.peek()[1] != "align":
            _, v = p.tv()
            ins.args = [v]
    elif op == "load":
        if p.peek()[1] == "volatile":
            p.next()
        ins.ty = p.type()
        p.expect(",")
        ins.args = [p.tv()[1]]
    elif op == "store":
        if p.peek()[1] == "volatile":
            p.next()
        t, v = p.tv()
        p.expect(",")
        ins.ty = t
        ins.args = [v, p.tv()[1]]
    elif op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nuw", "nusw"):
            p.next()
        ins.ty = p.type()
        p.expect(",")
        base = p.tv()[1]
        idx = []
        while p.eat(","):
            t, v = p.tv()
            idx.append((t, v))
        ins.args = [base]
        ins.x = idx
    elif op == "br":
        if p.peek()[1] == "label":
            p.next()
            ins.x = [unq(p.next()[1][1:])]
        else:
            _, c = p.tv()
            ins.args = [c]
            p.expect(",")
            p.expect("label")
            a = unq(p.next()[1][1:])
            p.expect(",")
            p.expect("label")
            b = unq(p.next()[1][1:])
            ins.x = [a, b]
    elif op == "switch":
        t, v = p.tv()
        ins.ty = t
        ins.args = [v]
        p.expect(",")
        p.expect("label")
        d = unq(p.next()[1][1:])
        p.expect("[")
        cases = []
        while not p.eat("]"):
            t2 = p.type()
            c = p.value(t2)
            p.expect(",")
            p.expect("label")
            cases.append((c.v, unq(p.next()[1][1:])))
        ins.x = (d, cases)
    elif op == "ret":
        if p.peek()[1] == "void":
            ins.ty = VOID
        else:
            t, v = p.tv()
            ins.ty = t
            ins.args = [v]
    elif op == "unreachable":
        pass
    elif op == "call":
        while p.peek()[1] in ("noundef", "zeroext", "signext", "noalias", "fastcc", "nonnull"):
            p.next()
        p.attrs()
        ins.ty = p.type()
        k, v = p.next()
        if k not in ("id", "qid"):
            raise SyntaxError("call " + l)
        ins.x = Const("global", unq(v[1:])) if v[0] == "@" else Local(unq(v[1:]))
        if v[0] == "@" and unq(v[1:]).startswith(ICMP_CALL_SKIP):
            return None
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                t = p.type()
                p.attrs()
                if t.k == "metadata":
                    return None
                args.append((t, p.value(t)))
                if p.eat(")"):
                    break
                p.expect(",")
        ins.args = args
    elif op in ("extractvalue", "insertvalue", "fcmp", "fadd", "fmul", "fdiv", "fsub", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "va_arg", "fneg"):
        ins.x = "unsupported"
    else:
        raise SyntaxError("instr " + l)
    return ins


def analyse_loops(f):
    """natural loops by dominators"""
    order = f.order
    entry = order[0]
    # reachable
    seen, st = {entry}, [entry]
    while st:
        b = st.pop()
        for s2 in f.blocks[b].succs():
            if s2 not in seen:
                seen.add(s2)
                st.append(s2)
    nodes = [b for b in order if b in seen]
    dom = {b: set(nodes) for b in nodes}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b == entry:
                continue
            ps = [dom[p] for p in f.blocks[b].preds if p in seen]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    for b in nodes:
        for h in f.blocks[b].succs():
            if h in dom[b]:
                body = f.loops.setdefault(h, {h})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += [q for q in f.blocks[x].preds if q in seen]
    f.irreducible = False
    back = {(b, h) for h, body in f.loops.items() for b in body if h in f.blocks[b].succs()}
    if cyclic(f, nodes, back):
        # a loop with several entries: headers are chosen per strongly connected component (every cycle still has a cut point)
        f.irreducible = True
        f.loops = {}
        todo = [set(nodes)]
        while todo:
            sub = todo.pop()
            for scc in sccs(f, sub):
                if len(scc) == 1 and not any(x in f.blocks[x].succs() for x in scc):
                    continue
                ent = [b for b in order if b in scc and any(p not in scc for p in f.blocks[b].preds)]
                h = (ent or [b for b in order if b in scc])[0]
                f.loops[h] = set(scc)
                todo.append(set(scc) - {h})


def cyclic(f, nodes, cut):
    color = {}
    for r in nodes:
        if r in color:
            continue
        st = [(r, iter(f.blocks[r].succs()))]
        color[r] = 1
        while st:
            b, it = st[-1]
            for n in it:
                if (b, n) in cut:
                    continue
                if color.get(n) == 1:
                    return True
                if n not in color:
                    color[n] = 1
                    st.append((n, iter(f.blocks[n].succs())))
                    break
            else:
                color[b] = 2
                st.pop()
    return False


def sccs(f, nodes):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]

    def go(v):
        work = [(v, iter([x for x in f.blocks[v].succs() if x in nodes]))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter([x for x in f.blocks[w].succs() if x in nodes])))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    out.append(c)
    for v in f.order:
        if v in nodes and v not in idx:
            go(v)
    return out


class Program:
    """All modules; symbol resolution across translation units."""

    def __init__(s, lls):
        s.mods = {}
        s.ext = {}
        s.gext = {}
        for n, path in lls.items():
            m = parse_module(path, n)
            s.mods[n] = m
            for f in m.funcs.values():
                if not f.internal:
                    s.ext[f.name] = f
            for g in m.globals.values():
                if not g.internal and not g.external:
                    s.gext[g.name] = g

    def func(s, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        return s.ext.get(name)

    def glob(s, name, mod):
        g = mod.globals.get(name)
        if g is not None and not g.external:
            return g
        return s.gext.get(name, g)
