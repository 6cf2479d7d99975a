"""Random text programs (C13): operations on strings for Text.tla and the script carrying them out."""

RAW = [ord(c) for c in "abcxyzABZ019 _-+*/%,.;:!?(){}[]<>=|&^~#@`"] + [0xe4, 0xdf, 0x3bb, 0x4e2d, 0x20ac, 0x1f600, 0x10ffff, 0xffff, 0x7ff, 0x800, 9, 10, 13, 1, 0x1f, 0x7f, 0x80, 0x85, 0xa0, 0x2028, 0xfeff]
IDENT = set(map(ord, "abcxyzABZ019_")) | {0xe4, 0xdf, 0x3bb, 0x4e2d}


def cps(s):
    return [ord(c) for c in s]


class Text:
    def __init__(self, rng, malformed=0.06):
        self.r = rng
        self.vals = []             # kinds of the values
        self.size = []             # approximate sizes
        self.ops, self.st, self.host = [], [], []
        self.obs = 0
        self.malformed = malformed
        self.delims = {}

    # --- literals: source code points between the quotes (no unescaped quote or dollar) ---------------
    def chars(self, n):
        r = self.r
        out = []
        for _ in range(n):
            c = r.random()
            if c < .62:
                out.append(r.choice(RAW))
            elif c < .75:
                out += cps(r.choice(["\\n", "\\r", "\\t", '\\"', "\\'", "\\\\", "\\$"]))
            elif c < .82:
                out += cps("\\x%s%s" % (r.choice("0123456789abcdefABCDEF"), r.choice("0123456789abcdefABCDEF")))
            elif c < .92:
                x = r.choice([0, 1, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff])
                out += cps("\\u{%s%s}" % ("0" * r.choice([0, 0, 1, 5]), ("%x" if r.random() < .5 else "%X") % x))
            else:
                out += [ord(c) for c in r.choice(["ab", "aab", "\\\\n", "\\\\", "'", '"'])]
        if r.random() < self.malformed:
            bad = r.choice(["\\q", "\\x", "\\x4", "\\xg1", "\\x1g", "\\u", "\\u{", "\\u{}", "\\u{d800}", "\\u{dfff}", "\\u{110000}", "\\u{ffffffff}", "\\u{100000041}", "\\u{41", "\\u41", "\\u{4 1}", "\\u{-1}", "\\0", "\\a",
                            "\\N", "\\U{41}", "\\X41", "\\u{g}", "\\ ", "\\{", "\\\n", "\\x 1", "\\x+1", "\\x-1"])
            p = r.choice([len(out), 0])
            out[p:p] = cps(bad)
        return out

    def delim_for(self, body):
        """A quote that does not occur unescaped; None if both do."""
        found, k = set(), 0
        while k < len(body):
            if body[k] == 92:
                k += 2
                continue
            if body[k] in (34, 39):
                found.add(body[k])
            k += 1
        ok = [d for d in (34, 39) if d not in found]
        return chr(self.r.choice(ok)) if ok else None

    def literal(self):
        while True:
            b = self.chars(self.r.choice([0, 0, 1, 2, 3, 5, 12]))
            d = self.delim_for(b)
            if d:
                return b, d

    # --- values -----------------------------------------------------------------------------------
    def define(self, op, expr, kind, size):
        self.vals.append(kind)
        self.size.append(size)
        self.ops.append(op)
        self.st.append("const v%d = %s;" % (len(self.vals), expr))
        return len(self.vals)

    def pick(self, kinds):
        c = [j + 1 for j, k in enumerate(self.vals) if k in kinds]
        return self.r.choice(c) if c else None

    def value(self):
        r = self.r
        c = r.random()
        if c < .35:
            b, d = self.literal()
            return self.define(["src", b], d + "".join(map(chr, b)) + d, "s", 4 * len(b))
        if c < .45:
            bs = [r.choice([97, 98, 0, 10, 0x7f, 0x80, 0xc3, 0xff]) for _ in range(r.choice([0, 1, 3, 9, 40]))] if r.random() < .7 else [97] * r.choice([63, 64, 65, 200])
            self.host.append(["sb", bs])
            return self.define(["host", bs], "h[%d]" % (len(self.host) - 1), "s", len(bs))
        if c < .55:
            n = r.choice([0, 1, 7, 10, 255, 99999, 2 ** 31, 2 ** 53, 2 ** 61, 2 ** 62, 2 ** 63 - 1, 10 ** 18, r.getrandbits(r.randint(1, 63))])
            neg = r.random() < .4 and n > 0
            if neg and r.random() < .2:
                n = 2 ** 63
            m, k = [], n
            while k:
                m.append(k & 255)
                k >>= 8
            text = "%s%d" % ("-" if neg else "", n) if n < 2 ** 63 else "(-9223372036854775807 - 1)"
            return self.define(["int", int(neg), m], text, "v", 20)
        if c < .6:
            u = r.choice([8, 4, 1, 16, 15, 33, 1600, 16 * 12345 + 5, -8, -17, -16 * 1000, r.randint(-10 ** 6, 10 ** 6)])
            f = abs(u)
            return self.define(["flt", u], "%s0x%x.%x" % ("-" if u < 0 else "", f // 16, f % 16), "v", 16)
        if c < .64:
            k = r.choice(["null", "true", "false"])
            return self.define([k], k, "v", 5)
        if c < .67:
            s = r.choice(["a", "red", "_x9", "ä"])
            return self.define(["sym", list(s.encode())], "#" + s, "v", 6)
        if c < .70:
            j = self.pick("s")
            if j:
                return self.define(["exc", j], "std.catch_panic(func() = std.panic(v%d)).error()" % j, "v", self.size[j - 1] + 11)
        if c < .78:
            return self.define(["new"], "std.new_string_builder()", "b", 0)
        if c < .86:
            j = self.pick("lb")
            if j:
                return self.define(["tostr", j], "v%d.to_string()" % j, "s", self.size[j - 1])
        j = self.pick("sl")
        if j is None:
            return
        z = self.size[j - 1]

        def num():
            n = r.choice([0, 1, 2, 3, z // 2, z - 1, z, z + 1, r.randint(0, z + 2), -1, -5, 2 ** 63 - 1, 2 ** 32, 2 ** 32 + 1, -2 ** 62])
            return max(-5, min(n, 2 ** 31 - 1)), n
        m = r.choice(["slice", "slice", "first", "last"])
        (a, x), (b, y) = num(), num()
        if m == "slice":
            return self.define(["slice", j, a, b], "v%d.slice(%d, %d)" % (j, x, y), "l", z)
        return self.define([m, j, a], "v%d.slice_%s(%d)" % (j, m, x), "l", z)

    def interp(self):
        r = self.r
        d = r.choice("\"'")
        pieces, text = [], d
        pend = False               # the last piece is $name
        tot = 0
        for _ in range(r.randint(1, 5)):
            j = self.pick("slv") if r.random() < .55 else None
            if j:
                pieces.append(["v", j])
                tot += self.size[j - 1]
                c = r.random()
                if c < .4:
                    text += "$v%d" % j
                    pend = True
                    continue
                text += "${%s}" % (("v%d" % j) if c < .7 else ("(v%d)" % j) if c < .85 else "{ v%d; }" % j if c < .93 else "\"${v%d}\"" % j)
                pend = False
            else:
                while True:
                    b = self.chars(r.choice([1, 2, 4]))
                    k, ok = 0, True
                    while k < len(b):
                        if b[k] == 92:
                            k += 2
                            continue
                        ok = ok and b[k] != ord(d)
                        k += 1
                    if ok and b:
                        break
                if pend and (b[0] in IDENT or b[0] > 127):
                    text += d + " " + d
                pieces.append(["s", b])
                text += "".join(map(chr, b))
                tot += 4 * len(b)
                pend = False
            if r.random() < .1 and text[-1] != "\\":
                text += d + r.choice([" ", "\n", ""])
                d = r.choice("\"'") if text[-1] in " \n" else d
                text += d
                pend = False
        return self.define(["interp", pieces], text + d, "s", tot)

    def change(self):
        r = self.r
        b = self.pick("b")
        if not b:
            return
        c = r.random()
        if c < .6:
            js = [self.pick("slv") for _ in range(r.randint(0, 3))]
            js = [j for j in js if j]
            self.ops.append(["app", b, js])
            self.size[b - 1] += sum(self.size[j - 1] for j in js)
            self.st.append("v%d.append(%s);" % (b, ", ".join("v%d" % j for j in js)))
        elif c < .75:
            j = self.pick("slv")
            n = r.choice([2, 7, 30, 64, 65])
            if j and self.size[j - 1] * n < 4000:
                self.ops.append(["rep", b, j, n])
                self.size[b - 1] += self.size[j - 1] * n
                self.st.append("for var i = 0; i < %d; i += 1 { v%d.append(v%d); }" % (n, b, j))
        elif c < .92:
            n = r.choice([0, 1, 65, 127, 128, 195, 255])
            self.ops.append(["byte", b, n])
            self.size[b - 1] += 1
            self.st.append("v%d.append_byte(%d);" % (b, n))
        else:
            self.ops.append(["clear", b])
            self.st.append("v%d.clear();" % b)

    def observe(self, op=None):
        r = self.r
        o = op or r.choice(["size", "has", "eq", "chars", "text"])
        if o == "size":
            j = self.pick("slb")
            e = "v%d.size()"
        elif o == "has":
            j, k = self.pick("slb"), self.pick("sl")
            if not j or not k:
                return
            self.ops.append(["has", j, k])
            self.st.append("out.append(v%d.contains(v%d));" % (j, k))
            return
        elif o == "eq":
            j, k = self.pick("slb"), self.pick("slb")
            if not j or not k:
                return
            self.ops.append(["eq", j, k])
            self.st.append("out.append(v%d %s v%d);" % (j, r.choice(["==", "=="]), k))
            return
        elif o == "chars":
            j = self.pick("sl")
            if j:
                self.ops.append(["chars", j])
                self.st.append("{ const cs = []; for c in v%d { cs.append(c); } out.append(cs); }" % j)
            return
        else:
            j = self.pick("slbv")
            if j:
                self.text(j)
            return
        if j:
            self.ops.append([o, j])
            self.st.append("out.append(%s);" % (e % j))

    def text(self, j):
        self.ops.append(["text", j])
        k = self.vals[j - 1]
        self.st.append("out.append(%s);" % ("v%d.to_string()" % j if k == "b" else self.r.choice(["\"$v%d\"" % j, "v%d.to_string()" % j]) if k == "l" else "v%d" % j if k == "s" else "\"${v%d}\"" % j))

    def build(self, id):
        r = self.r
        for _ in range(r.randint(6, 30)):
            c = r.random()
            if c < .45:
                self.value()
            elif c < .6:
                self.interp()
            elif c < .8:
                self.change()
            else:
                self.observe()
        for j in range(1, len(self.vals) + 1):
            self.text(j)
        for _ in range(6):
            self.observe("eq")
            self.observe("has")
        src = "import std;\nexport func main(h) {\n  const out = [];\n  %s\n  return out;\n}\n" % "\n  ".join(self.st)
        return dict(id=id, ops=self.ops, src=src, host=self.host)


def make(id, rng, **kw):
    return Text(rng, **kw).build(id)
