"""C23: acceptance and syntax trees, decided by Grammar.tla."""
import itertools
import vlib
import gensyntax as g
from checks.syntax import run as syntax

RULE = ("random sentences of the grammar (every production), the same with tokens removed, repeated, exchanged or replaced, every sequence of up to 2 tokens (thorough: 3; a sample of longer ones) out of 43 in five "
        "contexts, and generated programs of the other checks; acceptance, the shape of the tree and the place of every node are compared with Grammar.tla; non-trivial: texts with at least 3 tokens")
TOKENS = ["a", "map", "1", '"s"', '"$a"', '"${1}"', "#q", "true", "(", ")", "[", "]", "{", "}", ".", "?.", ",", ":", ";", "?(", "?[", "=", "+=", "-", "!", "**", "*", "??", "&&", "<", "if", "else", "func", "return",
          "break", "var", "const", "for", "in", "while", "defer", "assert", "export", "import", "as", "0"]
CONTEXTS = [("", ""), ("func f() {", "}"), ("const x =", ";"), ("func f() { if a", "{ } }"), ("func f() { for", "{ } }")]


def sentence(rng):
    return g.Sentence(rng, rng.choice([5, 15, 30, 60])).file()


def short(rng, n, keep):
    for k in range(1, n + 1):
        for t in itertools.product(TOKENS, repeat=k):
            for a, b in CONTEXTS:
                if k < n or rng.random() < keep:
                    yield g.render(rng, ([a] if a else []) + list(t) + ([b] if b else []), 0)


def longer(rng):
    a, b = rng.choice(CONTEXTS)
    mid = g.Sentence(rng, 6).expr() if rng.random() < .5 else [rng.choice(TOKENS) for _ in range(rng.randint(3, 6))]
    return g.render(rng, ([a] if a else []) + g.damage(rng, mid) + ([b] if b else []))


# inputs of known findings
DEEP = 200000


def probes(ctx):
    log = vlib.run_host([dict(id="deep", timeout=120, cmds=[["syntax", "func f() { return %s1%s; }" % ("(" * DEEP, ")" * DEEP), False]])], name=ctx.prop)["deep"]
    if log[0][0] in ("crash", "timeout") or (log[0][0] == "syntax" and log[0][1] not in ("OK", "BAD_SOURCE", "COMPILE")):
        ctx.violation("a text with %d nested parentheses ended in %s" % (DEEP, str(log[0])[:60]), dict(kind="probe", text="'(' repeated %d times" % DEEP), key="deep-nesting")


def run(ctx):
    ctx.rule = RULE
    probes(ctx)
    n = ctx.n(1500, 40000)
    parts = [("sentences", [g.render(r, sentence(r)) for r in (ctx.rng("sentence", i) for i in range(n))]),
             ("damaged", [g.render(r, g.damage(r, sentence(r))) for r in (ctx.rng("damaged", i) for i in range(n))]),
             ("short", list(short(ctx.rng("short"), ctx.n(2, 3), ctx.n(.6, .3)))),
             ("longer", [longer(ctx.rng("longer", i)) for i in range(n * 3)])]
    for name, texts in parts:
        for lo in range(0, len(texts), 20000):
            syntax(ctx, name, {"%s%d" % (name[:2], lo + j): t for j, t in enumerate(texts[lo:lo + 20000])}, "tree", True)
            if ctx.violations:
                return
