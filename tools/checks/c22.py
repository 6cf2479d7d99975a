"""C22: tokens and places, decided by Lexer.tla."""
import gensyntax as g
from checks.syntax import run as syntax

RULE = ("every text of up to 3 (thorough: 4) characters over an alphabet of 16 that covers the classes of the lexer, random texts made of pieces (names, keywords, numbers in all bases, operators, unfinished "
        "strings, nested interpolations, comments, characters of all planes), sentences of the grammar with random white space and comments, and texts that are no UTF-8; the leaves of the compiler's syntax "
        "tree, their places and the places of all messages are compared with Lexer.tla; non-trivial: texts with at least 3 tokens")


def broken(rng):
    t = (g.junk(rng) if rng.random() < .5 else "const a = 1;\n\u4e2d ").encode("utf-8", "replace")
    k = rng.randint(0, len(t))
    return t[:k] + bytes(rng.choice([[0x80], [0xff], [0xc3], [0xc0, 0x80], [0xe4, 0xb8], [0xed, 0xa0, 0x80], [0xf0, 0x80, 0x80, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xf5], [0xe0, 0x9f, 0xbf], [0xf0, 0x9f, 0x98],
                                     [0xc3, 0x28], [0xef, 0xbf, 0xbf], [0xed, 0x9f, 0xbf]])) + t[k:]


def run(ctx):
    ctx.rule = RULE
    parts = [("short", "tokens", list(g.short(ctx.n(3, 4))))]
    n = ctx.n(8000, 120000)
    parts += [("pieces", "tokens", [g.junk(ctx.rng("junk", i)) for i in range(n)])]
    parts += [("sentences", "tokens", [sentence(ctx.rng("sentence", i)) for i in range(n // 20)])]
    parts += [("bytes", "bytes", [broken(ctx.rng("bytes", i)) for i in range(n // 10)])]
    for name, mode, texts in parts:
        for lo in range(0, len(texts), 20000):
            syntax(ctx, name, {"%s%d" % (name[0], lo + j): t for j, t in enumerate(texts[lo:lo + 20000])}, mode)
            if ctx.violations:
                return


def sentence(rng):
    t = g.Sentence(rng, rng.choice([5, 15, 30])).file()
    return g.render(rng, t if rng.random() < .7 else g.damage(rng, t), 2)
