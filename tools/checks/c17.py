"""C17: equality, ordering and dictionary keys, judged by Equality.tla."""
import json
from fractions import Fraction
import vlib

RULE = ("value lists of up to 18 values drawn in clusters of equal and nearly equal values: integers and floats around 2^k (k up to 63, also beyond the range of "
        "integers), both zeros, strings with the same content in every representation (literals of two modules, interpolated, slices, builders, host strings), symbols, "
        "booleans, null, not-a-number and objects of every kind; compared pairwise by all operators at run time and as constants, and used as keys next to 0..3000 other "
        "keys; non-trivial: lists with at least one equal pair of differently written values")


def enc(x):
    """exact number -> <<sign, bytes of |x| * 2^64>>"""
    m = abs(x) * 2 ** 64
    assert m.denominator == 1 if isinstance(m, Fraction) else True
    m = int(m)
    out = []
    while m:
        out.append(m & 255)
        m >>= 8
    return [1 if x < 0 else 0] + out


def flit(f):
    """A float literal with exactly this value.  Hexadecimal: the compiler's decimal ones are rounded digit by digit (see C30)."""
    fr = Fraction(f)
    n, d = abs(fr.numerator), fr.denominator
    k = -(-(d.bit_length() - 1) // 4)
    digits = "%x" % (n * 16 ** k // d)
    if not k:
        return "0x%s.0" % digits
    digits = digits.rjust(k + 1, "0")
    return "0x%s.%s" % (digits[:-k], digits[-k:])


NUMS = [0, 1, 2, 3, 255, 256, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 61, 2 ** 62, 2 ** 63 - 1, 10 ** 15, 10 ** 18]
MIN = -2 ** 63


class Pool:
    def __init__(self, rng):
        self.rng, self.host, self.pre = rng, [], []
        self.names = 0

    def h(self, v):
        self.host.append(v)
        return "x[%d]" % (len(self.host) - 1)

    def fresh(self, text):
        self.names += 1
        self.pre.append("const o%d = %s;" % (self.names, text))
        return "o%d" % self.names

    # every method returns (descriptor, expression, usable as constant)
    def integer(self, n):
        r = self.rng
        lit = str(n) if n >= 0 else "(-9223372036854775807 - 1)" if n == MIN else "(-%d)" % -n
        c = r.random()
        if c < .5:
            return dict(k="num", v=enc(n)), lit, True
        if c < .65:
            return dict(k="num", v=enc(n)), self.h(["i", n]), False
        d = r.choice([1, 2, 2 ** 40])
        if n - d <= MIN:
            return dict(k="num", v=enc(n)), lit, True
        return dict(k="num", v=enc(n)), "(id(%d) + %s)" % (n - d, d) if n >= d else "(id(-%d) + %d)" % (d - n, d), False

    def float(self, f):
        r = self.rng
        neg = f < 0 or (f == 0 and r.random() < .4)
        lit = "(-%s)" % flit(f) if neg else flit(f)
        d = dict(k="num", v=enc(Fraction(f)))
        if r.random() < .3 and not (f == 0 and neg):
            return d, self.h(["f", float(f).hex()]), False
        return d, lit, True

    def number(self, n):
        """a value close to the number n, or n itself, as integer or float"""
        r = self.rng
        c = r.random()
        m = n if c < .6 else n + r.choice([-1, 1, -2, 2])
        if abs(n) < 2 ** 40 and r.random() < .15:
            return self.float(n + r.choice([.5, -.5, .25, 2.0 ** -10]))
        if r.random() < .5 or not (MIN <= m < 2 ** 63):
            f = float(m)
            if r.random() < .1:
                f *= 2.0 ** r.choice([1, -1, 40, 500]) if abs(f) > 1 else 1
            if f != 0 and abs(f) * 2.0 ** 60 < 1:
                f = 0.0
            if Fraction(f).denominator > 2 ** 60:
                f = float(m)
            return self.float(f)
        return self.integer(m)

    def string(self, s):
        r = self.rng
        d = dict(k="str", v=s)
        c = r.choice(["lit", "lit", "interp", "slice", "slice", "builder", "host", "other", "whole", "loop"])
        lit = "\"%s\"" % s
        if c == "lit" or (c == "interp" and not s):
            return d, lit, True
        if c == "interp":
            p = r.randint(0, len(s))
            return d, "\"${id(\"%s\")}%s\"" % (s[:p], s[p:]), False
        if c == "slice":
            pre, post = r.choice(["", "z", "ab", s]), r.choice(["", "q", s])
            return d, "\"%s%s%s\".slice(%d, %d)" % (pre, s, post, len(pre), len(s)), False
        if c == "whole":
            return d, "%s.%s(%d)" % (lit, r.choice(["slice_first", "slice_last"]), len(s) + r.randint(0, 3)), False
        if c == "builder":
            return d, "build([%s])" % ", ".join("\"%s\"" % x for x in s), False
        if c == "loop":
            return d, "\"%s\".slice(1, %d).slice(0, %d)" % ("y" + s + "w", len(s) + 1, len(s)), False
        if c == "host":
            return d, self.h(["s", s]), False
        self.other.append("export const k%d = %s;" % (len(self.other), lit))
        return d, "w.k%d" % (len(self.other) - 1), False

    def symbol(self, s):
        d = dict(k="sym", v=s)
        if self.rng.random() < .6:
            return d, "#" + s, True
        self.other.append("export const k%d = #%s;" % (len(self.other), s))
        return d, "w.k%d" % (len(self.other) - 1), False

    other = None

    def obj(self):
        r = self.rng
        t = r.choice(["[]", "[1, 2]", "(1, 2)", "(1,)", "(a: 1)", "set{1}", "set{}", "map{}", "map{1: 2}", "std.success(1)", "std.error(1)", "std.new_buffer(3)",
                      "std.new_string_builder()", "func() = id", "std.type_of", "fn", "mod", "type", "schema", "ex", "method", "it", "view"])
        if t == "fn":
            e, n = r.choice([("id", "id"), ("build", "build"), ("w.idw", "w.idw"), ("std.print", "print"), ("std.success", "succ")])
            return [(dict(k="obj", v=n), e, False)] * 2
        if t == "mod":
            return [(dict(k="obj", v=n), n, False) for n in (["std", "std"], ["std", "w"], ["w", "w"])[r.randint(0, 2)]]
        if t == "type":
            vs = r.sample([("Integer", "1"), ("Integer", "9223372036854775807"), ("Integer", "id(4)"), ("Float", "1.5"), ("Float", "id(2.0)"), ("String", "\"a\""),
                           ("String", "\"${id(1)}\""), ("Null", "null"), ("Boolean", "true"), ("Boolean", "false"), ("Array", "[]"), ("Tuple", "(1,)"), ("Map", "map{}"), ("Set", "set{}")], 3)
            return [(dict(k="obj", v="type " + n), "std.type_of(%s)" % e, False) for n, e in vs]
        if t == "schema":
            e = self.fresh("(k%d: 1, b: 2)" % self.names)      # records with the same keys may share their schema
            return [(dict(k="obj", v="schema of " + e), "std.schema_of(%s)" % e, False)] * 2
        if t == "ex":
            e = self.fresh("std.catch_panic(func() = std.panic(\"m\"))")
            return [(dict(k="obj", v="ex of " + e), "%s.error()" % e, False)] * 2
        if t == "method":
            e = self.fresh("[].append")
            return [(dict(k="obj", v=e), e, False)] * 2
        if t == "view":
            e = self.fresh("map{1: 2}.keys()")
            return [(dict(k="obj", v=e), e, False)] * 2
        if t == "it" or t == "std.type_of":
            return [(dict(k="obj", v="type_of"), "std.type_of", False)] * 2
        e = self.fresh(t)
        out = [(dict(k="obj", v=e), e, False)] * r.randint(1, 2)
        if r.random() < .5:      # the same contents, another object
            e2 = self.fresh(t)
            out.append((dict(k="obj", v=e2), e2, False))
        return out


def strings(rng):
    base = "".join(rng.choice("abcXY 019_") for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20, 60])))
    out = [base]
    if base:
        p = rng.randrange(len(base))
        out += [base[:p] + rng.choice("abz") + base[p + 1:], base[:-1], base + rng.choice("ab"), base + base]
    else:
        out += ["a", " "]
    return out


def make(rng, id):
    p = Pool(rng)
    p.other = []
    vs = []
    kind = rng.choice(["num", "num", "str", "mixed", "mixed", "obj"])
    for _ in range(rng.randint(2, 4)):
        k = kind if kind not in ("mixed",) else rng.choice(["num", "str", "obj", "sym", "bool", "cross"])
        if k == "num":
            n = rng.choice(NUMS) if rng.random() < .7 else rng.getrandbits(rng.randint(1, 63))
            if rng.random() < .35:
                n = -n if rng.random() < .8 else MIN
            vs += [p.number(n) for _ in range(rng.randint(2, 5))]
        elif k == "str":
            ss = strings(rng)
            vs += [p.string(ss[0] if rng.random() < .6 else rng.choice(ss)) for _ in range(rng.randint(2, 5))]
        elif k == "sym":
            n = rng.choice(["a", "b", "abc"])
            vs += [p.symbol(n), p.symbol(n), p.symbol(rng.choice(["a", "b", "abc"])), p.string(n)]
        elif k == "bool":
            vs += [(dict(k="bool", v=True), "true", True), (dict(k="bool", v=False), "false", True), p.integer(rng.choice([0, 1])), (dict(k="null"), "null", True)]
        elif k == "cross":      # the same text in different kinds
            n = rng.choice([0, 1, 12])
            vs += [p.integer(n), p.string(str(n)), p.string("null"), (dict(k="null"), "null", True), p.string("true"), (dict(k="bool", v=True), "true", True),
                   (dict(k="nan"), "(id(0.0) / 0.0)", False)][:rng.randint(3, 7)]
        else:
            vs += p.obj()
    if rng.random() < .5:
        rng.shuffle(vs)
    vs = vs[:18]
    for d, e, c in vs:
        if d["k"] == "num" and d["v"] == [1]:
            d["v"] = [0]
    keys = [j for j in range(len(vs)) if vs[j][0]["k"] != "nan"]
    consts = [j for j in range(len(vs)) if vs[j][2]]
    ps = [(a, b) for a in consts for b in consts]
    rng.shuffle(ps)
    rm = [rng.randrange(len(keys)) for _ in range(rng.randint(0, 4))] if keys else []
    return dict(id=id, vs=vs, keys=keys, ps=ps[:14], rm=rm, fill=rng.choice([0, 0, 5, 60, 300, 3000]), host=p.host, pre=p.pre, other=p.other)


LIB = """import std; import w;
func id(v) = v;
func build(cs) { const b = std.new_string_builder(); for c in cs { b.append(c); } return b.to_string(); }
export func pairs(x) {
    const vs = values(x);
    const num = numeric();
    const out = [];
    for var i = 0; i < vs.size(); i += 1 { for var j = 0; j < vs.size(); j += 1 {
        const a = vs[i]; const b = vs[j];
        var r = 0;
        if a == b { r += 1; }
        if a != b { r += 2; }
        if num[i] && num[j] {
            if a < b { r += 4; }
            if a <= b { r += 8; }
            if a > b { r += 16; }
            if a >= b { r += 32; }
        }
        out.append(r);
    } }
    return out;
}
func bit(b) = if b { 1; } else { 0; };
export func keys(x) {
    const all = values(x);
    const ks = [];
    for i in keyset() { ks.append(all[i]); }
    const m = map{}; const s = set{}; const fill = %d;
    for var i = 0; i < fill; i += 1 { m["fill $i"] = 0; s.insert("fill $i"); }
    const found = []; const ins = []; const sizes = []; const look = []; const order = []; const left = [];
    for var i = 0; i < ks.size(); i += 1 {
        found.append(bit(m.contains(ks[i])) + 2 * bit(s.contains(ks[i])));
        m[ks[i]] = i + 1;
        ins.append(bit(s.insert(ks[i])));
        sizes.append(m.size() - fill);
        sizes.append(s.size() - fill);
    }
    for k in ks { look.append(m[k]); }
    for (k, v) in m { if v != 0 { order.append(v); } }
    for k in s { if m[k] != 0 { order.append(m[k]); } }
    for i in removed() { m.remove(ks[i]); s.remove(ks[i]); }
    for k in ks { left.append(bit(m.contains(k)) + 2 * bit(s.contains(k))); }
    return (found, ins, sizes, look, order, left);
}
"""


def source(g):
    vs = g["vs"]
    ex = [e for d, e, c in vs]
    const = []
    for a, b in g["ps"]:
        A, B = ex[a], ex[b]
        t = "bit(%s == %s) + 2 * bit(%s != %s)" % (A, B, A, B)
        if vs[a][0]["k"] == vs[b][0]["k"] == "num":
            t += " + 4 * bit(%s < %s) + 8 * bit(%s <= %s) + 16 * bit(%s > %s) + 32 * bit(%s >= %s)" % ((A, B) * 4)
        const.append(t)
    return (LIB % g["fill"] + "func numeric() = [%s];\nfunc keyset() = [%s];\nfunc removed() = [%s];\n" % (
        ", ".join("true" if d["k"] == "num" else "false" for d, e, c in vs), ", ".join(map(str, g["keys"])), ", ".join(map(str, g["rm"])))
        + "func values(x) {\n %s\n return [%s];\n}\n" % ("\n ".join(g["pre"]), ",\n  ".join(ex))
        + "export func consts() = [%s];\n" % ",\n  ".join(const))


def session(g):
    args = ["t", [["t", list(g["host"])]]]
    return dict(id=g["id"], timeout=60, cmds=[
        ["vm", "v"], ["std", "v"], ["load", "v", "w", "\n".join(["export func idw(v) = v;"] + g["other"])], ["load", "v", "m", source(g)],
        ["export", "v", "m", "pairs", "p"], ["export", "v", "m", "keys", "k"], ["export", "v", "m", "consts", "c"],
        ["call", "v", "p", args], ["call", "v", "k", args], ["call", "v", "c", ["NULL"]]])


def ints(v):
    return [int(x[1]) for x in v[1]] if v and v[0] == "a" and all(x[0] == "i" for x in v[1]) else None


def observe(gs):
    logs = vlib.run_host([session(g) for g in gs], name="C17")
    cs = []
    for g in gs:
        ev = logs[g["id"]]
        calls = [e for e in ev if e[0] == "call"]
        ok = len(calls) == 3 and all(e[2] == "OK" and e[3][0] == "ok" for e in calls)
        ds = [d for d, e, c in g["vs"]]
        ks = [ds[j] for j in g["keys"]]
        got = None
        if ok:
            pairs, consts = ints(calls[0][3][1]), ints(calls[2][3][1])
            t = calls[1][3][1]
            parts = [ints(x) for x in t[1]] if t[0] == "t" else []
            if pairs is not None and consts is not None and len(parts) == 6 and all(x is not None for x in parts):
                got = parts
        if not got:
            cs.append(dict(id="p" + g["id"], k="missing", log=ev))
            continue
        found, ins, sizes, look, order, left = got
        cs.append(dict(id="p" + g["id"], k="pairs", vs=ds, r=pairs))
        cs.append(dict(id="c" + g["id"], k="const", vs=ds, ps=[[a + 1, b + 1] for a, b in g["ps"]], r=consts))
        h = len(order) // 2
        for which, b in (("m", 0), ("s", 1)):
            cs.append(dict(id=which + g["id"], k="keys", vs=ks, rm=[x + 1 for x in g["rm"]], found=[x >> b & 1 for x in found], ins=ins, sizes=sizes[b::2], look=look,
                           order=order[:h] if b == 0 else order[h:], left=[x >> b & 1 for x in left]))
    return cs


def run(ctx):
    ctx.rule = RULE
    rng = ctx.rng("lists")
    n = ctx.n(2500, 40000)
    for lo in range(0, n, 5000):
        gs = {}
        for j in range(lo, min(n, lo + 5000)):
            g = make(rng, str(j))
            gs[g["id"]] = g
            if len({json.dumps(d) for d, e, c in g["vs"]}) < len({e for d, e, c in g["vs"]}):
                ctx.nontrivial.add(g["id"])

        def describe(c, info):
            g = gs[c["id"][1:]]
            if c["k"] == "pairs" or c["k"] == "const":
                return "operators disagree with equality for pairs %s of %s" % (info[:200], [e for d, e, k in g["vs"]]), dict(source=source(g), w=g["other"], case=c)
            if c["k"] == "keys":
                return "keys %s: wrong %s" % ([g["vs"][j][1] for j in g["keys"]], info), dict(source=source(g), w=g["other"], case=c)
            return "no result: %s" % str(c["log"])[:600], dict(source=source(g), w=g["other"], case=c)
        cs = observe(list(gs.values()))
        ctx.sample(dict(values=[e for d, e, c in gs[str(lo)]["vs"]], case=cs[0]))
        ctx.cases(cs, "Equality", lambda ids: [c for c in observe([gs[j] for j in sorted({i[1:] for i in ids})]) if c["id"] in ids], part="value lists", describe=describe)
        if ctx.violations:
            return
