"""Random descriptions (C24): values built and changed by a script, described along the way; operations for Describe.tla."""
import json
import gentext

SCALARS = ("null", "bool", "int", "str", "sym")
CONTAINERS = ("arr", "map", "set", "rec", "tuple")
NAMES = ["a", "b", "c", "key", "x1", "_"]
OPAQUE = [("Function", "f"), ("Function", "std.print"), ("Buffer", "std.new_buffer(3)"), ("StringBuilder", "std.new_string_builder()"), ("Module", "std"),
          ("Function", "func() = 1"), ("Function", "[].append"), ("MapKeyView", "map{1: 2}.keys()"), ("MapValueView", "map{}.values()"), ("CoroutineToken", "std.coroutine_token()")]
TYPES = ["Array", "Boolean", "Buffer", "Coroutine", "CoroutineToken", "Exception", "Float", "Function", "Map", "MapKeyView", "MapValueView", "Integer", "Module", "NativeObject", "NativePointer", "Null",
         "Record", "RecordSchema", "Result", "Set", "String", "StringBuilder", "StringSlice", "Symbol", "Tuple", "Type"]
KIND = dict(null="Null", bool="Boolean", int="Integer", str="String", sym="Symbol", float="Float", slice="StringSlice", arr="Array", map="Map", set="Set", rec="Record", tuple="Tuple", ok="Result",
            fail="Result", type="Type", schema="RecordSchema", exc="Exception", coro="Coroutine")
ESC = {10: "\\n", 13: "\\r", 9: "\\t", 34: '\\"', 36: "\\$", 92: "\\\\", 39: "\\'"}


class Case:
    def __init__(self, cid, rng):
        self.id, self.r = cid, rng
        self.kind, self.val, self.ops, self.st = [], [], [], []
        self.host = []
        self.nobs = 0

    def new(self, kind, v, expr):
        self.kind.append(kind)
        self.val.append(v)
        self.ops.append(["new", kind, json.loads(json.dumps(v))])
        self.st.append("const n%d = %s;" % (len(self.kind), expr))
        return len(self.kind)

    def op(self, op, st):
        self.ops.append(op)
        if st: self.st.append(st)

    def pick(self, kinds=None):
        c = [j + 1 for j, k in enumerate(self.kind) if kinds is None or k in kinds]
        if not c: return None
        return self.r.choice(c[-5:]) if self.r.random() < .5 else self.r.choice(c)

    def content(self):
        r = self.r
        if r.random() < .3:          # arbitrary bytes
            b = []
            for _ in range(r.choice([0, 1, 2, 4, 8])):
                c = r.random()
                if c < .35: b.append(r.randrange(32, 127))
                elif c < .55: b += list(chr(r.choice(gentext.RAW)).encode())
                elif c < .7: b += list(chr(r.choice(gentext.RAW)).encode())[:-1] or [0]
                elif c < .8: b += r.choice([[0xc0, 0x80], [0xed, 0xa0, 0x80], [0xe0, 0x9f, 0x80], [0xf0, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80], [0xf8], [0xc1, 0xbf], [0xff], [0xed, 0x9f, 0xbf], [0xee, 0x80, 0x80], [0xf4, 0x8f, 0xbf, 0xbf]])
                else: b.append(r.choice([0, 9, 10, 13, 31, 34, 36, 39, 92, 127, 128, 0xbf, 0xc2, 0xe1, 0xf1, 0xfe]))
            return b, "host"
        cs = [r.choice(gentext.RAW + [34, 36, 39, 92, 0x100, 0xff, 0xfe, 0xd7ff, 0xe000]) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        return [x for c in cs for x in chr(c).encode()], '"%s"' % "".join(ESC.get(c, chr(c) if c >= 32 else "\\x%02x" % c) for c in cs)

    def hosted(self, b):
        self.host.append(b)
        return "host.%d" % 0 if 0 else "texts[%d]" % (len(self.host) - 1)

    def text(self):
        b, e = self.content()
        return b, self.hosted(b) if e == "host" else e

    def scalar(self):
        r = self.r
        k = r.choice(["null", "bool", "int", "int", "str", "str", "sym", "float", "slice", "type", "opaque", "schema", "exc", "coro"])
        if k == "null": return self.new("null", "null", "null")
        if k == "bool":
            v = r.choice(["true", "false"])
            return self.new(k, v, v)
        if k == "int":
            v = str(r.choice([0, 1, -1, 7, 2 ** 31, -2 ** 31, 2 ** 53, 2 ** 62 - 1, 2 ** 62, -2 ** 62, -2 ** 62 - 1, 2 ** 63 - 1, -2 ** 63 + 1, r.randrange(-1000, 1000)]))
            return self.new(k, v, v)
        if k == "float":
            q = r.choice([0, 1, 2, 3, 4, 5, 40, 400, 4999, r.randrange(1, 4 * 10 ** 6)])
            v = "%s%d.%s" % (r.choice(["", "-"]) if q else "", q // 4, ["0", "25", "5", "75"][q % 4])
            return self.new(k, v, v)
        if k == "str":
            b, e = self.text()
            return self.new(k, b, e)
        if k == "slice":
            b, e = self.text()
            n = r.choice([0, 1, 2, len(b)])
            return self.new(k, b[:n], "%s.slice_first(%d)" % (e, n)) if r.random() < .5 else self.new(k, b[n:], "%s.slice(%d, %d)" % (e, n, max(0, len(b) - n)))
        if k == "sym":
            v = r.choice(NAMES + ["if"])
            return self.new(k, v, "#" + v)
        if k == "type":
            t = r.choice(TYPES)
            return self.new(k, t, "std." + t)
        if k == "opaque":
            t, e = r.choice(OPAQUE)
            return self.new(k, t, e)
        if k == "schema":
            ns = r.sample(NAMES, r.randrange(4))
            return self.new(k, ns, "std.schema_of((%s))" % (", ".join("%s: 1" % x for x in ns) or ":"))
        if k == "exc":
            b, e = self.text()
            return self.new(k, b, "std.catch_panic(func() { std.panic(%s); }).error()" % e)
        self.kind.append("coro")
        self.val.append(None)
        self.op(["launch"], "const n%d = std.launch(f);" % len(self.kind))
        return len(self.kind)

    def container(self):
        r = self.r
        k = r.choice(["arr", "arr", "map", "map", "set", "rec", "tuple", "tuple", "ok", "fail"])
        m = r.choice([0, 1, 1, 2, 3])
        kids = [self.pick() for _ in range(m)]
        kids = [x for x in kids if x]
        n = lambda x: "n%d" % x
        if k in ("ok", "fail"):
            x = self.pick()
            return self.new(k, x, "std.%s(%s)" % ("success" if k == "ok" else "error", n(x))) if x else None
        if k == "arr": return self.new(k, kids, "[%s]" % ", ".join(map(n, kids)))
        if k == "tuple": return self.new(k, kids, "(%s%s)" % (", ".join(map(n, kids)), "," if len(kids) == 1 else ""))
        if k == "rec":
            names = r.sample(NAMES, len(kids))
            return self.new(k, [list(x) for x in zip(names, kids)], "(%s)" % (", ".join("%s: %s" % (a, n(b)) for a, b in zip(names, kids)) or ":"))
        return self.new(k, [], k + "{}")

    def key(self):
        return self.pick(SCALARS + ("arr", "rec", "map") if self.r.random() < .3 else SCALARS)

    def same(self, a, b):
        return a == b or (self.kind[a - 1] in SCALARS and self.kind[a - 1] == self.kind[b - 1] and self.val[a - 1] == self.val[b - 1])

    def change(self):
        r = self.r
        c = self.pick(CONTAINERS)
        if not c: return
        k, x = self.kind[c - 1], self.pick()
        v = self.val[c - 1]
        if k == "arr":
            if v and r.random() < .4:
                j = r.randrange(len(v))
                v[j] = x
                self.op(["index", c, j + 1, x], "n%d[%d] = n%d;" % (c, j, x))
            elif r.random() < .1:
                v.clear()
                self.op(["clear", c], "n%d.clear();" % c)
            elif len(v) < 5:
                v.append(x)
                self.op(["append", c, x], "n%d.append(n%d);" % (c, x))
        elif k == "tuple" and v:
            j = r.randrange(len(v))
            v[j] = x
            self.op(["index", c, j + 1, x], "n%d.%d = n%d;" % (c, j, x))
        elif k == "rec" and v:
            j = r.randrange(len(v))
            v[j][1] = x
            self.op(["field", c, j + 1, x], "n%d.%s = n%d;" % (c, v[j][0], x))
        elif k == "map":
            y = self.key()
            if not y: return
            p = [j for j, e in enumerate(v) if self.same(e[0], y)]
            if r.random() < .2:
                self.op(["remove", c, y], "n%d.remove(n%d);" % (c, y))
                if p: del v[p[0]]
            elif len(v) < 5 or p:
                self.op(["put", c, y, x], "n%d[n%d] = n%d;" % (c, y, x))
                if p: v[p[0]][1] = x
                else: v.append([y, x])
        elif k == "set":
            y = self.key()
            if not y: return
            p = [j for j, e in enumerate(v) if self.same(e, y)]
            if r.random() < .2:
                self.op(["remove", c, y], "n%d.remove(n%d);" % (c, y))
                if p: del v[p[0]]
            elif len(v) < 5:
                self.op(["insert", c, y], "n%d.insert(n%d);" % (c, y))
                if not p: v.append(y)

    def cost(self, x, inside, left):
        """The number of values described when x is, at most left."""
        if x in inside or left <= 0: return 1
        k, v = self.kind[x - 1], self.val[x - 1]
        kids = v if k in ("arr", "tuple", "set") else [e[1] for e in v] if k == "rec" else [y for e in v for y in e] if k == "map" else [v] if k in ("ok", "fail") else []
        n = 1
        for y in kids:
            n += self.cost(y, inside | {x}, left - n)
            if n > left: break
        return n

    def observe(self):
        r = self.r
        x = self.pick() if r.random() < .4 else self.pick(CONTAINERS + ("ok", "fail")) or self.pick()
        if not x: return
        c = r.random()
        k = self.kind[x - 1]
        self.nobs += 1
        if c < .15:
            own = self.val[x - 1] if k == "opaque" else KIND[k]
            t = own if r.random() < .6 and own in TYPES else r.choice(TYPES)
            self.op(["is", x, t], "out.append(std.debug_repr(std.type_of(n%d) == std.%s));" % (x, t))
        elif c < .2:
            self.ops.append(["typeof", x])
            self.kind.append("type")
            self.val.append(None)
            self.st.append("const n%d = std.type_of(n%d);" % (len(self.kind), x))
            self.nobs -= 1
        elif c < .25 and k == "rec":
            self.ops.append(["schemaof", x])
            self.kind.append("schema")
            self.val.append(None)
            self.st.append("const n%d = std.schema_of(n%d);" % (len(self.kind), x))
            self.nobs -= 1
        elif c < .3 and k == "coro":
            self.op(["name", x], "out.append(n%d.name());" % x)
        elif c < .35 and k in ("ok", "fail"):
            self.op(["outcome", x], "out.append(std.debug_repr(n%d.type()));" % x)
        elif self.cost(x, frozenset(), 150) <= 150:
            pretty = r.random() < .5
            self.op(["repr", x, pretty], "out.append(std.debug_repr(n%d%s));" % (x, ", " + r.choice(["true", "1", "\"\""]) if pretty else r.choice(["", ", false", ", null"])))
        else:
            self.nobs -= 1

    def make(self):
        for _ in range(self.r.choice([6, 12, 25, 50])):
            c = self.r.random()
            if c < .25: self.scalar()
            elif c < .45: self.container()
            elif c < .75: self.change()
            else: self.observe()
        for _ in range(3): self.observe()
        self.src = ("import std;\nfunc f() { return 1; }\nexport func main(texts) {\n  const out = [];\n  " + "\n  ".join(self.st) + "\n  return out;\n}\n")
        return self


def make(cid, rng):
    return Case(cid, rng).make()
