"""Abstract syntax of Tiro programs: construction, rendering to source text, flattening to the node table of TiroCore."""


class N:
    __slots__ = ("o", "n", "i", "i2", "c", "s", "t", "x")

    def __init__(self, o, c=(), n="", i=0, i2=0, s=(), t=(), x=""):
        self.o, self.n, self.i, self.i2, self.x = o, n, i, i2, x
        self.c, self.s, self.t = list(c), list(s), list(t)


# constructors ---------------------------------------------------------------
def Int(v): return N("int", i=v) if v >= 0 else N("un", [N("int", i=-v)], n="-")
def Str(v): return N("str", n=v)
def Var(v): return N("var", n=v)
def Null(): return N("null")
def Bool(b): return N("bool", i=1 if b else 0)
def Flt(units): return N("flt", i=units)            # multiples of 1/1024
def Sym(n): return N("sym", n=n)
def Bin(op, a, b): return N("bin", [a, b], n=op)
def Un(op, a): return N("un", [a], n=op)
def And(a, b): return N("and", [a, b])
def Or(a, b): return N("or", [a, b])
def Coal(a, b): return N("coal", [a, b])
def If(c, a, b=None): return N("if", [c, a] + ([b] if b is not None else []))
def Blk(*st): return N("blk", st)
def Call(f, *a, opt=False): return N("call", [f, *a], i2=1 if opt else 0)
def MCall(o, name, *a, opt=0): return N("mcall", [o, *a], n=name, i2=opt)
def Mem(o, name, opt=False): return N("mem", [o], n=name, i2=1 if opt else 0)
def Tf(o, i, opt=False): return N("tf", [o], i=i, i2=1 if opt else 0)
def Idx(o, i, opt=False): return N("idx", [o, i], i2=1 if opt else 0)
def Tup(*a): return N("tup", a)
def Arr(*a): return N("arr", a)
def SetL(*a): return N("set", a)
def MapL(*kv): return N("map", kv)
def Rec(**kv): return N("rec", kv.values(), s=list(kv))
def Interp(*p): return N("interp", p)
def Fn(params, body, expr=False): return N("fn", [body], s=params, i=1 if expr else 0)
def Decl(name, init=None, const=False): return N("decl", [] if init is None else [init], s=[name], i=1 if const else 0)
def DeclT(names, init=None, const=False): return N("dect", [] if init is None else [init], s=names, i=1 if const else 0)
def FDecl(name, fn):
    fn.n = name
    return N("fdecl", [fn], s=[name])
def Defer(e): return N("defer", [e])
def Assert(c, m=None): return N("assert", [c] + ([m] if m is not None else []))
def While(c, b): return N("while", [c, b])
def For(d, c, st, b): return N("for", [d, c, st, b])
def Each(names, cont, b, tup=False): return N("each", [cont, b], s=names, i=1 if tup else 0)
def Return(e=None): return N("ret", [] if e is None else [e])
def Break(): return N("brk")
def Continue(): return N("cont")


def chain(path):
    """Wraps a path if it contains optional elements."""
    p = path
    while p.o in ("mem", "tf", "idx", "call", "mcall"):
        if p.i2:
            return N("chain", [path])
        p = p.c[0]
    return path


def target(e):
    """Assignment target -> (descriptor, operands)."""
    if e.o == "var":
        return {"k": "var", "n": e.n, "i": 0}, []
    if e.o == "mem":
        return {"k": "mem", "n": e.n, "i": 0}, [e.c[0]]
    if e.o == "tf":
        return {"k": "tf", "n": "", "i": e.i}, [e.c[0]]
    assert e.o == "idx"
    return {"k": "idx", "n": "", "i": 0}, list(e.c)


def Asg(t, rhs):
    d, ops = target(t)
    return N("asg", ops + [rhs], t=[d])


def CAsg(op, t, rhs):
    d, ops = target(t)
    return N("casg", ops + [rhs], t=[d], n=op)


def TAsg(ts, rhs):
    ds, ops = [], []
    for t in ts:
        d, o = target(t)
        ds.append(d)
        ops += o
    return N("tasg", ops + [rhs], t=ds)


# rendering ------------------------------------------------------------------
PATH = ("mem", "tf", "idx", "call", "mcall")
ATOM = ("int", "str", "var", "null", "bool", "flt", "sym", "tup", "arr", "set", "map", "rec", "interp", "chain") + PATH


def quote(s):
    out = []
    for ch in s:
        if ch in '"\\$':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        else:
            out.append(ch)
    return "".join(out)


def flt(u):
    whole, frac = divmod(u, 1024)
    s = ("%.10f" % (frac / 1024.0))[2:].rstrip("0") or "0"
    return "%d.%s" % (whole, s)


def tgt(d, ops):
    if d["k"] == "var":
        return d["n"]
    o = opd(ops[0])
    if d["k"] == "mem":
        return "%s.%s" % (o, d["n"])
    if d["k"] == "tf":
        return "%s.%d" % (o, d["i"])
    return "%s[%s]" % (o, ex(ops[1]))


def nops(d):
    return {"var": 0, "idx": 2}.get(d["k"], 1)


def opd(e):
    """Renders an operand: parenthesised unless atomic."""
    return ex(e) if e.o in ATOM else "(%s)" % ex(e)


def base(e):
    if e.o == "chain":
        return "(%s)" % ex(e)
    s = opd(e)
    return "(%s)" % s if e.o in ("int", "flt") else s


def blk(b, ind=0):
    assert b.o == "blk", b.o
    if not b.c:
        return "{}"
    pad = "  " * (ind + 1)
    out = []
    for i, s in enumerate(b.c):
        t = stmt(s, ind + 1)
        # `if (..) {} (..)` would be read as a call: separate
        if s.o in ("if", "blk", "fdecl") and i + 1 < len(b.c) and not t.endswith(";"):
            t += ";"
        out.append(pad + t + "\n")
    return "{\n" + "".join(out) + "  " * ind + "}"


def stmt(s, ind=0):
    o = s.o
    if o in ("decl", "dect"):
        kw = "const" if s.i else "var"
        names = s.s[0] if o == "decl" else "(%s)" % ", ".join(s.s)
        return "%s %s%s;" % (kw, names, " = " + ex(s.c[0], ind) if s.c else "")
    if o == "fdecl":
        return fn(s.c[0], s.s[0], ind) + (";" if s.c[0].i & 1 else "")
    if o == "defer":
        return "defer %s;" % ex(s.c[0], ind)
    if o == "assert":
        return "assert(%s);" % ", ".join(ex(x, ind) for x in s.c)
    if o == "while":
        return "while (%s) %s" % (ex(s.c[0], ind), blk(s.c[1], ind))
    if o == "for":
        d, c, st, b = s.c
        return "for %s; %s; %s %s" % (stmt(d, ind)[:-1] if d else "", ex(c, ind) if c else "", ex(st, ind) if st else "", blk(b, ind))
    if o == "each":
        names = "(%s)" % ", ".join(s.s) if s.i else s.s[0]
        return "for %s in %s %s" % (names, s.c[0].n if s.c[0].o == "var" else "(%s)" % ex(s.c[0], ind), blk(s.c[1], ind))
    if o == "if":
        return ex(s, ind)
    if o == "blk":
        return blk(s, ind)
    t = ex(s, ind)
    if t.startswith("func"):
        t = "(%s)" % t
    return t + ";"


def fn(f, name, ind):
    head = "func %s(%s)" % (name, ", ".join(f.s))
    if f.i & 1:
        return head + " = " + ex(f.c[0], ind)
    return head + " " + blk(f.c[0], ind)


def ex(e, ind=0):
    o = e.o
    if o == "raw":
        return e.n
    if o == "int":
        return str(e.i)
    if o == "str":
        return '"%s"' % quote(e.n)
    if o == "var":
        return e.n
    if o == "null":
        return "null"
    if o == "bool":
        return "true" if e.i else "false"
    if o == "flt":
        return flt(e.i)
    if o == "sym":
        return "#" + e.n
    if o == "bin":
        return "%s %s %s" % (opd(e.c[0]), e.n, opd(e.c[1]))
    if o == "un":
        return "%s(%s)" % (e.n, ex(e.c[0], ind))
    if o in ("and", "or", "coal"):
        return "%s %s %s" % (opd(e.c[0]), {"and": "&&", "or": "||", "coal": "??"}[o], opd(e.c[1]))
    if o == "if":
        s = "if (%s) %s" % (ex(e.c[0], ind), blk(e.c[1], ind))
        if len(e.c) > 2:
            s += " else " + (ex(e.c[2], ind) if e.c[2].o == "if" else blk(e.c[2], ind))
        return s
    if o == "blk":
        return blk(e, ind)
    if o == "chain":
        return ex(e.c[0], ind)
    q = "?" if e.i2 & 1 else ""
    if o == "mem":
        return "%s%s.%s" % (base(e.c[0]), q, e.n)
    if o == "tf":
        return "%s%s.%d" % (base(e.c[0]), q, e.i)
    if o == "idx":
        return "%s%s[%s]" % (base(e.c[0]), q, ex(e.c[1], ind))
    if o == "call":
        assert e.c[0].o != "mem"
        return "%s%s(%s)" % (base(e.c[0]), q, ", ".join(ex(x, ind) for x in e.c[1:]))
    if o == "mcall":
        return "%s%s.%s%s(%s)" % (base(e.c[0]), q, e.n, "?" if e.i2 & 2 else "", ", ".join(ex(x, ind) for x in e.c[1:]))
    if o == "tup":
        return "(%s%s)" % (", ".join(ex(x, ind) for x in e.c), "," if len(e.c) == 1 else "")
    if o == "arr":
        return "[%s]" % ", ".join(ex(x, ind) for x in e.c)
    if o == "set":
        return "set{%s}" % ", ".join(ex(x, ind) for x in e.c)
    if o == "map":
        return "map{%s}" % ", ".join("%s: %s" % (ex(e.c[i], ind), ex(e.c[i + 1], ind)) for i in range(0, len(e.c), 2))
    if o == "rec":
        return "(%s)" % (", ".join("%s: %s" % (k, ex(x, ind)) for k, x in zip(e.s, e.c)) or ":")
    if o == "interp":
        return '"%s"' % "".join(quote(p.n) if p.o == "str" else "${%s}" % ex(p, ind) for p in e.c)
    if o == "fn":
        return fn(e, "", ind)
    if o == "asg":
        return "%s = %s" % (tgt(e.t[0], e.c), ex(e.c[-1], ind))
    if o == "casg":
        return "%s %s= %s" % (tgt(e.t[0], e.c), e.n, ex(e.c[-1], ind))
    if o == "tasg":
        parts, j = [], 0
        for d in e.t:
            parts.append(tgt(d, e.c[j:]))
            j += nops(d)
        return "(%s%s) = %s" % (", ".join(parts), "," if len(parts) == 1 else "", ex(e.c[-1], ind))
    if o == "ret":
        return "return" + (" " + ex(e.c[0], ind) if e.c else "")
    if o == "brk":
        return "break"
    if o == "cont":
        return "continue"
    raise AssertionError(o)


# free local variables (decides which function values are closures) -----------
class Scopes:
    def __init__(self):
        self.st = []        # list of (function depth, set of names)

    def find(self, name):
        for d, names in reversed(self.st):
            if name in names:
                return d
        return None


def captures(e, sc, depth):
    """Marks closures below e; returns the set of function depths e refers to."""
    used = set()

    def sub(x, dep=depth):
        if x:
            used.update(captures(x, sc, dep))

    o = e.o
    if o == "var":
        d = sc.find(e.n)
        return {d} if d is not None else set()
    if o in ("asg", "casg", "tasg"):
        for t in e.t:
            if t["k"] == "var":
                d = sc.find(t["n"])
                if d is not None:
                    used.add(d)
    if o == "fn":
        sc.st.append((depth + 1, set(e.s)))
        inner = captures(e.c[0], sc, depth + 1)
        sc.st.pop()
        outer = {d for d in inner if d <= depth}
        e.i2 = 1 if outer else 0
        return outer
    if o == "blk":
        mark = len(sc.st)
        sc.st.append((depth, set()))
        for s in e.c:
            if s.o == "fdecl":
                sc.st[-1][1].update(s.s)
                sub(s.c[0])
            elif s.o in ("decl", "dect"):
                for x in s.c:
                    sub(x)
                sc.st.append((depth, set(s.s)))     # visible from here on
            else:
                sub(s)
        del sc.st[mark:]
        return used
    if o == "for":
        n = len(sc.st)
        if e.c[0]:
            for x in e.c[0].c:
                sub(x)
            sc.st.append((depth, set(e.c[0].s)))
        for x in e.c[1:]:
            sub(x)
        del sc.st[n:]
        return used
    if o == "each":
        sub(e.c[0])
        sc.st.append((depth, set(e.s)))
        sub(e.c[1])
        sc.st.pop()
        return used
    for x in e.c:
        sub(x)
    return used


# modules and programs ---------------------------------------------------------
class Module:
    def __init__(self, items, exports=(), imports=(), bad=False):
        self.items, self.exports, self.imports, self.bad = list(items), list(exports), list(imports), bad

    def source(self):
        out = ["import %s as %s;" % (m, a) if a != m else "import %s;" % m for a, m in self.imports]
        for it in self.items:
            pre = "export " if any(n in self.exports for n in it.s) else ""
            out.append(pre + stmt(it))
        return "\n".join(out) + "\n"


FIELDS = ("o", "n", "i", "i2", "c", "s", "t", "x")


class Program:
    """A session: modules, host commands; `spec()` is what TiroCore reads, `host()` what the host driver executes."""

    def __init__(self, id, modules, cmds, timeout=20):
        self.id, self.modules, self.cmds, self.timeout = id, modules, cmds, timeout
        self.deporder = None

    def flatten(self):
        nodes = []

        def flat(e, mod):
            if not e:
                return 0
            nodes.append(None)
            my = len(nodes)
            c = [flat(x, mod) for x in e.c]
            nodes[my - 1] = {"o": e.o, "n": e.n, "i": e.i, "i2": e.i2, "c": c, "s": e.s, "t": e.t, "x": mod}
            return my

        mods = {}
        for name, m in self.modules.items():
            for it in m.items:
                for x in it.c:
                    captures(x, Scopes(), 0)
            ids = [flat(it, name) for it in m.items]
            deps = list(dict.fromkeys(x[1] for x in m.imports))
            # siblings are initialised in order of their names; the property allows any order (see checks/c14.py)
            mods[name] = {"items": ids, "exports": m.exports, "imports": [list(x) for x in m.imports], "deps": self.deporder(deps) if self.deporder else sorted(deps)}
            if m.bad:
                mods[name]["bad"] = True
        return nodes, mods

    def spec(self, log):
        nodes, mods = self.flatten()
        fired = [e[1] for e in log if e[0] == "fault"]
        cmds = []
        for c in self.cmds:
            f = c[0] == "fault"
            x = c[2] if f else c
            x = [x[0], x[1], x[2], ["src"]] if x[0] == "load" else x
            cmds.append(["fault", fired.pop(0) if fired else False, x] if f else x)
        return {"id": self.id, "nodes": nodes, "mods": mods, "cmds": cmds, "log": log}

    def host(self, pre=()):
        cmds = []
        for c in self.cmds:
            x = c[2] if c[0] == "fault" else c
            if x[0] == "load":
                x = ["load", x[1], x[2], self.modules[x[2]].source()]
            cmds.append(["fault", c[1], x] if c[0] == "fault" else x)
        return {"id": self.id, "cmds": list(pre) + cmds, "timeout": self.timeout}

    def modules_text(self):
        return "\n".join("// module %s\n%s" % (n, m.source()) for n, m in self.modules.items())
