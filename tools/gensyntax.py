"""Source texts for C22 and C23: short texts over an alphabet, pieces of text, sentences of the grammar, damaged sentences."""
import itertools, unicodedata

ALPHABET = ['a', '0', '.', '"', "'", '$', '{', '}', '\\', '/', '*', '\n', ' ', '?', '#', '=']
ODD = ["\u00e4", "\u00df", "\u03bb", "\u4e2d", "\u0300", "\u0663", "\u203f", "\u00a0", "\u0085", "\u2028", "\u2029", "\u200e", "\u200f", "\u20ac", "\U0001f600", "\U0001d400", "\u00b7", "\u2118", "\u3000", "\u0e33",
       "\ud55c", "\u0436", "\u00aa", "\u2160", "\ufe33", "\u200b", "\ufeff", "\u00d7", "\U00010400", "\uffff"]
WHITE = {0x85, 0x200e, 0x200f, 0x2028, 0x2029}      # Pattern_White_Space beyond ASCII
KEYWORDS = ("as assert break catch class const continue defer else export false for func if import in interface is null package protocol return scope struct switch throw true try var "
            "while yield map set").split()
OPS = "( ) [ ] { } . , : ; ? ?. ?( ?[ ?? + ++ += - -- -= * ** **= *= / /= % %= ~ ^ ! != | || & && = == < <= << > >= >>".split()
TRIVIA = [" ", "\n", "\t", "  ", "\r\n", "/**/", "/* x */", "/* /* ( */ \" */", "// a \" { \n", "//\n", " /* \n\n*/ ", "\u0085", "\u2028", "\u200e", "/***/", "/*/**/*/", "//*\n", "/*//*/", "\v\f", "/*\u4e2d*/"]


def klass(ch):
    if ord(ch) in WHITE:
        return "white"
    if ch.isidentifier():
        return "start"
    if ("a" + ch).isidentifier():
        return "cont"
    return "other"


def classes(text):
    return [[ord(c), klass(c)] for c in sorted(set(text)) if ord(c) >= 128]


def short(n):
    for k in range(n + 1):
        for t in itertools.product(ALPHABET, repeat=k):
            yield "".join(t)


def junk(rng):
    """Pieces of source text in no particular order."""
    out = []
    for _ in range(rng.randint(1, 14)):
        c = rng.random()
        if c < .15:
            out.append(rng.choice(TRIVIA))
        elif c < .3:
            out.append(rng.choice(OPS))
        elif c < .42:
            out.append(rng.choice(KEYWORDS + ["funct", "Func", "i", "iff", "_", "mapp", "se", "x1", "a_b", "assertt"]))
        elif c < .55:
            out.append(number(rng))
        elif c < .62:
            out.append(rng.choice(ODD) + rng.choice(["", "a", "1", rng.choice(ODD)]))
        elif c < .82:
            out.append(rng.choice(['"', "'", "$", "${", "}", "{", "\\", '\\"', "\\$", "$a", "$$", "a$", "$if", "$ ", "${a}", '"a"', "'b", "\\\\", "$1", "\\\n"]))
        elif c < .9:
            out.append(rng.choice(["#", "#a", "#1", "#_x", "#\u00e4", "##", "# a"]))
        elif c < .93:
            out.append(rng.choice(["/*", "*/", "//", "/", "*", "/* a", "/**"]))
        else:
            out.append(chr(rng.choice([0, 1, 7, 11, 12, 27, 64, 96, 127, 92])))
    return "".join(out)


def number(rng):
    return rng.choice(["0", "1", "12", "007", "1_000", "_1", "1_", "0x1F", "0xg", "0b101", "0b2", "0o17", "0o9", "0x", "0b", "0x_f", "1.5", "1.", ".5", "0x1.8", "0b1.1", "1..2", "1.2.3", "0X1", "1e5", "1.e",
                       "1._5", "0x.8", "00", "0xfFaA", "9a", "1.a"])


class Sentence:
    """A random sentence of the grammar as a list of token texts (a string literal is one element, its inside has no trivia)."""

    def __init__(self, rng, size):
        self.r, self.left = rng, size

    def pick(self, *w):
        """w: (weight, function) pairs; runs the cheap first one when the size is used up."""
        self.left -= 1
        if self.left < 0:
            return w[0][1]()
        return self.r.choices([x[1] for x in w], [x[0] for x in w])[0]()

    def name(self): return self.r.choice(["a", "b", "foo", "_x", "map", "set", "\u03bb", "x1", "main", "iff"])

    def many(self, f, lo, hi): return [f() for _ in range(self.r.randint(lo, hi if self.left > 0 else lo))]

    def listed(self, f, open_, close, lo=0, hi=3, sep=","):
        xs = self.many(f, lo, hi)
        out = [open_]
        for j, x in enumerate(xs):
            if j:
                out.append(sep)
            out += x
        if xs and self.r.random() < .15:
            out.append(sep)
        return out + [close]

    def literal(self): return [self.r.choice(["true", "false", "null", "#sym", "#_1", "1", "2.5", "0x1f", "0b1", "1_0", "0.", "17"])]

    def string(self):
        r = self.r
        d = r.choice("\"'")
        out = d
        for _ in range(r.randint(0, 3) if self.left > 0 else 0):
            c = r.random()
            if c < .5:
                out += r.choice(["a", " ", "\\n", "\\" + d, "\\$", "b c", "{", "}", "\u4e2d", "//", "/*", "\\\\", "\"'".replace(d, ""), "\n", "1"])
            elif c < .7:
                out += "$" + r.choice(["a", "foo", "_x"])
                if r.random() < .5:
                    out += r.choice([" ", ".", "-"])
            else:
                out += "${" + self.text(self.expr()) + "}"
        return [out + d]

    def text(self, toks):
        return render(self.r, toks)

    def suffix(self, x):
        r = self.r
        c = r.random()
        if c < .35:
            return x + [r.choice([".", "."  , "?."]), self.name() if r.random() < .7 else r.choice(["0", "1", "12"])]
        if c < .6:
            return x + [r.choice(["[", "[", "?["])] + self.expr() + ["]"]
        return x + self.listed(self.expr, r.choice(["(", "(", "?("]), ")")

    def operand(self):
        x = self.primary()
        while self.left > 0 and self.r.random() < .3:
            self.left -= 1
            x = self.suffix(x)
        return x

    def expr(self, nb=False):
        r = self.r
        out = []
        for j in range(r.choice([1, 1, 1, 2, 2, 3, 4]) if self.left > 0 else 1):
            if j:
                out.append(r.choice("= += -= *= **= /= %= || && ?? | ^ & == != < <= > >= << >> + - * / % ** + * - = ??".split()))
            while r.random() < .12:
                out.append(r.choice("+-~!"))
            out += self.operand() if not nb else [self.name()] if r.random() < .6 else ["("] + self.expr() + [")"]
        return out

    def primary(self):
        r = self.r
        return self.pick((5, lambda: [self.name()]), (4, self.literal), (2, self.string), (1, lambda: self.string() + self.string()), (2, lambda: ["("] + self.expr() + [")"]),
                         (1.5, lambda: ["(", ")"] if r.random() < .2 else self.listed(self.expr, "(", ")", 2, 3) if r.random() < .7 else ["("] + self.expr() + [",", ")"]),
                         (1, lambda: ["(", ":", ")"] if r.random() < .3 else self.listed(lambda: [self.name(), ":"] + self.expr(), "(", ")", 1)),
                         (1.5, lambda: self.listed(self.expr, "[", "]")), (1, lambda: ["map"] + self.listed(lambda: self.expr() + [":"] + self.expr(), "{", "}")),
                         (1, lambda: ["set"] + self.listed(self.expr, "{", "}")), (1.2, self.if_), (1, self.block), (1.5, self.func), (.5, lambda: ["break"]), (.5, lambda: ["continue"]),
                         (1, lambda: ["return"] + (self.expr() if r.random() < .7 else [])))

    def if_(self):
        out = ["if"] + self.expr(self.r.random() < .5) + self.block()
        if self.r.random() < .5:
            out += ["else"] + (self.if_() if self.r.random() < .3 and self.left > 0 else self.block())
        return out

    def func(self):
        out = ["func"] + ([self.name()] if self.r.random() < .4 else []) + self.listed(lambda: [self.name()], "(", ")")
        c = self.r.random()
        return out + (self.block() if c < .5 else ["="] + self.block() if c < .7 else ["="] + self.expr())

    def block(self):
        return ["{"] + sum(self.many(self.stmt, 0, 3), []) + ([";"] if self.r.random() < .1 else []) + ["}"]

    def binding(self, nb=False):
        r = self.r
        p = [self.name()] if r.random() < .7 else self.listed(lambda: [self.name()], "(", ")")
        return p + (["="] + self.expr(nb) if r.random() < .85 else [])

    def var(self, nb=False):
        out = [self.r.choice(["var", "const"])] + self.binding(nb)
        while self.r.random() < .2:
            out += [","] + self.binding(nb)
        return out

    def stmt(self):
        r = self.r
        return self.pick((5, lambda: self.expr() + [";"]), (2, lambda: self.var() + [";"]), (1, lambda: ["defer"] + self.expr() + [";"]), (1, lambda: ["assert"] + self.listed(self.expr, "(", ")", 1, 2) + [";"]),
                         (1, lambda: ["while"] + self.expr(True) + self.block()), (1.5, lambda: self.if_() + ([";"] if r.random() < .3 else [])), (.6, lambda: self.block() + ([";"] if r.random() < .3 else [])),
                         (.6, lambda: self.func() + ([";"] if r.random() < .8 else [])),
                         (1, lambda: ["for"] + ((self.var(True) if r.random() < .7 else []) + [";"]) + ((self.expr() if r.random() < .7 else []) + [";"]) + (self.expr(True) if r.random() < .7 else []) + self.block()),
                         (1, lambda: ["for"] + ([self.name()] if r.random() < .6 else self.listed(lambda: [self.name()], "(", ")")) + ["in"] + self.expr(True) + self.block()))

    def item(self):
        r = self.r
        e = ["export"] * r.choice([0, 0, 0, 1, 1, 2])
        c = r.random()
        if c < .2:
            p = [self.name()]
            while r.random() < .3:
                p += [".", self.name()]
            return ["import"] + p + (["as", self.name()] if r.random() < .4 else []) + [";"]
        if c < .4:
            return e + self.var() + [";"]
        f = ["func"] + ([self.name()] if r.random() < .9 else []) + self.listed(lambda: [self.name()], "(", ")")
        c = r.random()
        return e + f + (self.block() if c < .7 else ["="] + self.block() if c < .8 else ["="] + self.expr() + [";"])

    def file(self):
        out = []
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            out += self.item()
            if self.r.random() < .1:
                out.append(";")
        return out


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


def render(rng, toks, style=None):
    """Tokens with trivia between them; always separated where two tokens would become one."""
    style = style if style is not None else rng.choice([0, 0, 1, 2])
    out = ""
    for j, t in enumerate(toks):
        if j:
            p = toks[j - 1]
            sep = " " if style == 0 else rng.choice(TRIVIA) if style == 2 and rng.random() < .5 else "" if rng.random() < .7 else " "
            glue = (p[-1] in WORD or ord(p[-1]) > 127) and (t[0] in WORD or ord(t[0]) > 127) or p[-1] in "?*/+-=<>!|&%." and t[0] in "?*/+-=<>!|&%.([0123456789" or p[-1].isdigit() and t[0] == "."
            if glue and sep == "":
                sep = " "
            if glue and p[-1] == "/" and sep.startswith("/"):
                sep = " " + sep
            if p[-1] == "/" and sep.startswith(("/", "*")):
                sep = " " + sep
            out += sep
        out += t
    return out


def damage(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        j = rng.randrange(len(toks)) if toks else 0
        c = rng.random()
        if c < .35 and toks:
            del toks[j]
        elif c < .5 and toks:
            toks.insert(j, toks[rng.randrange(len(toks))])
        elif c < .65 and len(toks) > 1:
            k = rng.randrange(len(toks) - 1)
            toks[k], toks[k + 1] = toks[k + 1], toks[k]
        elif c < .85:
            toks.insert(j, rng.choice(OPS + KEYWORDS + ["a", "1", '"s"', "#q"]))
        elif toks:
            toks[j] = rng.choice(OPS + KEYWORDS + ["a", "1", '"s"'])
    return toks
