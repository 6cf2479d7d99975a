"""C15: verdicts of the real compiler on random module texts against Static.tla."""
import collections, random, re
import genstatic, vlib
from vlib import CheckError

RULE = ("random modules (1 or 2 files, imports, up to 4 declarations each, nested functions, blocks, loops, deferred expressions, jumps, assignments) over five names, generated with a "
        "probability of 0, 2, 6 or 12 % per choice of ignoring a static rule; plus texts with deleted, inserted, exchanged tokens for which only the form of the answer is judged; "
        "non-trivial: the module has more than 10 nodes and its verdict is not shared by its generator variant without violations")
TOKENS = re.compile(r'"(?:\\.|[^"\\])*"|#?\w+|\*\*=|\*\*|[-+*/%]=|[=!<>]=|&&|\|\||\?\?|\?\.|\?\(|\?\[|<<|>>|\S')
EXTRA = ["(", ")", "{", "}", "[", "]", ",", ";", ":", ".", "=", "+", "-", "!", "func", "var", "const", "if", "else", "while", "for", "in", "return", "break", "continue", "import", "export",
         "defer", "assert", "map", "set", "null", "1", "a", "b", "#x", '"s"', "?.", "?(", "**", "==", "+=", "&&", "??", '"', "0x", "\\", "'", "$", "as", "switch", "class", "{ ", "/*", "//", "1.5.", "\u00e9"]
# inputs of known findings
PROBES = {
    "defer-continue-foreach": "export func d() {\n  for e in [1, 2] {\n    defer continue;\n  }\n}\n",
}


def classify(e):
    if e and e[0] == "compile":
        if e[1] == "OK" and e[2] and not e[3]:
            return "accepted"
        if e[1] == "BAD_SOURCE" and not e[2] and e[3] and e[4]:
            return "rejected"
    return "other: " + str(e)[:300]


def compile_all(items):
    """[(id, sources)] -> {id: verdict}"""
    sess = [dict(id="s%d" % lo, cmds=[["compile", "m", s] for _, s in items[lo:lo + 40]], timeout=60) for lo in range(0, len(items), 40)]
    logs = vlib.run_host(sess, name="C15")
    out, redo = {}, []
    for lo in range(0, len(items), 40):
        l = logs["s%d" % lo]
        for j, (id, s) in enumerate(items[lo:lo + 40]):
            if j < len(l) and l[j][0] == "compile":
                out[id] = classify(l[j])
            else:
                redo.append((id, s))
    if redo:        # a crash or a timeout: each one alone
        logs = vlib.run_host([dict(id=id, cmds=[["compile", "m", s]], timeout=60) for id, s in redo], name="C15")
        for id, s in redo:
            out[id] = classify(logs[id][0])
    return out


def mutate(rng, src):
    toks = TOKENS.findall(src)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not toks:
            break
        p = rng.randrange(len(toks))
        c = rng.random()
        if c < .3:
            del toks[p]
        elif c < .55:
            toks.insert(p, rng.choice(EXTRA))
        elif c < .75:
            toks[p] = rng.choice(EXTRA)
        elif c < .85:
            q = rng.randrange(len(toks))
            toks[p], toks[q] = toks[q], toks[p]
        elif c < .93:
            toks.insert(p, toks[p])
        else:
            del toks[p:p + rng.randint(1, 6)]
    return " ".join(toks)


def run(ctx):
    ctx.rule = RULE
    known = PROBES
    r = compile_all(list((k, {"f": s}) for k, s in known.items()))
    for k, v in r.items():
        if v != "accepted":
            ctx.violation("module `%s` is %s" % (known[k], v), dict(source=known[k], verdict=v), key=k)
    mods, texts = {}, {}
    n = ctx.n(9000, 90000)
    for j, noise in enumerate([0, .02, .06, .12]):
        rng = ctx.rng("mod", noise)
        for k in range(n * [4, 3, 2, 1][j] // 10):
            mods["m%d-%d" % (j, k)] = genstatic.module(rng, noise)
    for k in range(n // 2):
        mods["one%d" % k] = genstatic.single(lambda: ctx.rng("one", k))
    rng = ctx.rng("text")
    ids = [k for k in mods if k.startswith("m0")]
    for k in range(ctx.n(4000, 40000)):
        src = mods[rng.choice(ids)].sources()
        texts["t%d" % k] = {f: mutate(rng, s) for f, s in src.items()}

    def cases_of(ids):
        v = compile_all([(i, mods[i].sources() if i in mods else texts[i]) for i in ids])
        out = []
        for i in ids:
            c = mods[i].case(i) if i in mods else dict(id=i, nodes=[], files=[])
            c["k"] = "tree" if i in mods else "text"
            c["r"] = v[i]
            out.append(c)
        return out

    def describe(c, info):
        src = mods[c["id"]].sources() if c["id"] in mods else texts[c["id"]]
        return "should be %s, but is %s:\n%s" % (info, c["r"], "\n".join(src.values())), dict(source=src, expected=info, got=c["r"])
    for part, ids in [("modules", list(mods)), ("mutated texts", list(texts))]:
        for lo in range(0, len(ids), 10000):
            cs = cases_of(ids[lo:lo + 10000])
            for c in cs:
                ctx.counts["%s %s" % (part, c["r"].split(":")[0])] += 1
                if len(c["nodes"]) > 10:
                    ctx.nontrivial.add(str(c["nodes"])[:4000])
            if lo == 0:
                ctx.sample(dict(source=(mods.get(ids[0]) and mods[ids[0]].sources()) or texts[ids[0]], verdict=cs[0]["r"]))
            ctx.cases(cs, "Static", cases_of, part=part, describe=describe)
            if ctx.violations:
                return
