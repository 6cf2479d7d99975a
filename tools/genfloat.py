"""Random floating point operations (C25): numbers of every magnitude and shape, as literals (evaluated by the compiler), from variables and mixed; operations for Float.tla."""
import math, struct
from fractions import Fraction

ARITH = ["+", "-", "*", "/", "%"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
UNARY = ["neg", "abs", "floor", "ceil", "round", "sqrt", "id"]


def limbs(n):
    out = []
    while n:
        out.append(n % 4096)
        n //= 4096
    return out


def enc(x):
    """A number for Float.tla."""
    if isinstance(x, int):
        return ["i", int(x < 0), limbs(abs(x)), 0]
    if math.isnan(x):
        return ["nan", 0, [], 0]
    s = int(math.copysign(1, x) < 0)
    if math.isinf(x):
        return ["inf", s, [], 0]
    b = struct.unpack("<Q", struct.pack("<d", abs(x)))[0]
    e, m = b >> 52, b & ((1 << 52) - 1)
    return ["n", s, limbs(m if e == 0 else m + (1 << 52)), max(e, 1) - 1075]


def from_bits(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


class Case:
    def __init__(self, cid, rng):
        self.id, self.r = cid, rng
        self.args, self.st, self.ops = [], [], []      # ops: [operator, a, b, extra] in the order of the observations
        self.pool = [self.number() for _ in range(rng.choice([4, 8]))]

    def number(self, near=None):
        r = self.r
        c = r.random()
        if near is not None and c < .25 and isinstance(near, float) and math.isfinite(near):
            return math.nextafter(near, r.choice([-math.inf, math.inf])) if r.random() < .5 else -near
        if c < .3: return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 0.1, 0.3, 3.0, 1e22, 1e23, 2.0 ** 53, 2.0 ** 63, -2.0 ** 63, 2.0 ** 62, 1e300, 1e308, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
                                    2.225073858507201e-308, 1e-300, 4503599627370495.5, 4503599627370496.5, 0.49999999999999994, math.inf, -math.inf, math.nan])
        if c < .45: return r.choice([0, 1, -1, 2, 3, 10, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62, 2 ** 62 - 1, 2 ** 63 - 1, -2 ** 63, 2 ** 63 - 512, 2 ** 63 - 513, r.randrange(-100, 100), r.randrange(-2 ** 63, 2 ** 63)])
        if c < .55: return float(r.randrange(-1000, 1000))
        if c < .7: return r.randrange(-4000, 4000) / 2.0 ** r.choice([1, 2, 3, 10])
        if c < .85: return from_bits((r.getrandbits(1) << 63) | ((1023 + r.randrange(-60, 61)) << 52) | (r.getrandbits(52) & r.choice([-1, -1, ~0 << 20, ~0 << 40, 1, 0])))
        return from_bits(r.getrandbits(64) & r.choice([-1, (0x800 << 52) | ((1 << 54) - 1)]))

    def operand(self, near=None):
        """-> value, expression"""
        r = self.r
        x = r.choice(self.pool) if r.random() < .5 else self.number(near)
        c = r.random()
        if c < .5:
            l = self.literal(x)
            if l: return x, l
        self.args.append(x)
        return x, "args.%d" % (len(self.args) - 1)

    def literal(self, x):
        if isinstance(x, int):
            return None if x == -2 ** 63 else "(%d)" % x if x < 0 else "%d" % x
        if math.isinf(x): return "(1.0 / 0.0)" if x > 0 else "(-1.0 / 0.0)"
        if math.isnan(x): return None
        a = abs(x)
        if a != 0 and not 1e-30 < a < 1e30: return None
        t = dec(a)
        return "(-%s)" % t if math.copysign(1, x) < 0 else t

    def op(self):
        r = self.r
        c = r.random()
        if c < .45:
            x, a = self.operand()
            y, b = self.operand(x)
            if isinstance(x, int) and isinstance(y, int):
                return
            o = r.choice(ARITH)
            if o == "%" and (not math.isfinite(x) or not math.isfinite(y) or (y and abs(math.frexp(float(x))[1] - math.frexp(float(y))[1]) > 160)) and r.random() < .9: return
            self.emit(o, x, y, None, "%s %s %s" % (a, o, b))
        elif c < .65:
            x, a = self.operand()
            y, b = self.operand(x)
            if isinstance(x, int) and isinstance(y, int):
                return
            o = r.choice(CMP)
            if o in ("<=", ">=") and (x != x or y != y): return      # a known finding, probed separately
            self.emit(o, x, y, "bool", "%s %s %s" % (a, o, b))
        elif c < .8:
            x, a = self.operand()
            o = r.choice(UNARY)
            if o in ("neg", "id") and isinstance(x, int): return
            self.emit(o, x, 0, None, "-%s" % a if o == "neg" else a if o == "id" else "std.%s(%s)" % (o, a))
        elif c < .84:
            x, a = self.operand()
            n = r.choice([0, 1, 2, 3, 4, 5, 8])
            if isinstance(x, int) or not math.isfinite(x) or (x and abs(math.frexp(x)[1]) * n > 900): return
            self.emit("**", x, 0, n, "(%s) ** %s" % (a, r.choice(["%d", "%d.0"]) % n))
        elif c < .9:
            x, a = self.operand()
            if isinstance(x, int): return
            self.emit("text", x, 0, "text", r.choice(["std.debug_repr(%s)" % a, '"${%s}"' % a]))
        else:
            # a literal of any length
            n = r.choice([1, 2, 5, 16, 17, 18, 20, 30])
            d = "".join(r.choice("0123456789") for _ in range(n))
            k = r.choice([1, 1, 2, 5, 17, 25])
            f = "".join(r.choice("0123456789") for _ in range(k))
            base, pre = 10, ""
            if r.random() < .15:
                base, pre = r.choice([(16, "0x"), (2, "0b"), (8, "0o")])
                digits = dict([(16, "0123456789abcdefABCDEF"), (2, "01"), (8, "01234567")])[base]
                d = "".join(r.choice(digits) for _ in range(r.choice([1, 3, 6])))
                f = "".join(r.choice(digits) for _ in range(r.choice([1, 3, 6])))
            t = pre + d + "." + f
            if r.random() < .2:
                j = r.randrange(len(pre) + 1, len(t))
                t = t[:j] + "_" + t[j:]
            if t.endswith(".") or "._" in t: return
            self.ops.append(["text", None, None, [limbs(int(d + f, base)), base, -len(f)]])
            self.st.append(t)

    def emit(self, o, x, y, extra, expr):
        self.ops.append([o, x, y, extra])
        self.st.append(expr)

    def make(self):
        for _ in range(self.r.choice([15, 40])): self.op()
        self.src = "import std;\nexport func main(args) {\n  const out = [];\n%s  return out;\n}\n" % "".join("  out.append(%s);\n" % s for s in self.st)
        return self

    def case(self, results):
        """results: rendered values, one per operation"""
        ops = []
        for (o, x, y, extra), res in zip(self.ops, results):
            if o == "text" and x is None:           # a literal: the number it should denote
                ops.append(["text", enc(0.0), enc(0), enc(value(res)), extra])
            elif o == "text":
                t = parse("".join(map(chr, res[1]))) if res[0] == "s" else None
                if t is None: ops.append(["bad", enc(0), enc(0), enc(0), 0])
                elif t == "inf" or t == "-inf" or t == "nan": ops.append(["id", enc(float(t)), enc(0), enc(x), 0])
                else: ops.append(["text", enc(-0.0 if t[0] else 0.0), enc(0), enc(x), [limbs(t[1]), 10, t[2]]])
            elif extra == "bool":
                ops.append([o, enc(x), enc(y), enc(0), res[1] if res[0] == "b" else "failed"])
            else:
                ops.append([o, enc(x), enc(y), enc(value(res)), extra or 0])
        return ops


def value(res):
    if res[0] == "f":
        return int(res[1].split("/")[0]) / 1024.0 if "/" in res[1] else float(res[1])
    return 1 << 80      # not a float: no result equals it


def parse(t):
    if t in ("inf", "-inf"): return t
    if t in ("nan", "-nan"): return "nan"
    s = t.startswith("-")
    m, _, e = t.lstrip("-").partition("e")
    a, _, f = m.partition(".")
    if not (a + f).isdigit(): return None
    return s, int(a + f), int(e or "0") - len(f)


def dec(a):
    """The shortest decimal text of a positive number, without exponent."""
    from decimal import Decimal
    t = format(Decimal(repr(a)), "f")
    return t if "." in t else t + ".0"


def make(cid, rng):
    return Case(cid, rng).make()
