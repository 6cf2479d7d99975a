"""C25: floating point operations, decided by Float.tla."""
import math, vlib, genfloat

RULE = ("random operations on doubles of every magnitude and shape (special values, neighbours, ties, subnormals, integers up to 64 bits), as literals folded by the compiler, as arguments and mixed; arithmetic, remainder, "
        "integral powers, comparisons, rounding functions, square roots, texts and literals; Float.tla computes or characterises every exact result and its rounding; non-trivial: at least 10 operations")


def observe(gs, pre=()):
    arg = lambda x: ["i", str(x)] if isinstance(x, int) else ["f", x.hex() if math.isfinite(x) else str(x)]
    logs = vlib.run_host([dict(id=g.id, timeout=60, cmds=list(pre) + [["vm", "v"], ["std", "v"], ["load", "v", "m", g.src], ["export", "v", "m", "main", "main"],
                                                                      ["-call", "v", "main", ["t", [["t", [arg(x) for x in g.args]]]], "out"], ["bytes", "v", "out"]]) for g in gs], name="C25")
    cs = []
    for g in gs:
        ev = logs[g.id]
        b = [e for e in ev if e[0] == "bytes"]
        ok = b and b[0][2][0] == "a" and len(b[0][2][1]) == len(g.ops)
        cs.append(dict(id=g.id, ops=g.case(b[0][2][1]) if ok else [["failed", genfloat.enc(0), genfloat.enc(0), genfloat.enc(0), 0]], log=str(ev[-3:])[:300] if not ok else "", seen=str(b[0][2][1])[:3000] if ok else ""))
    return cs


def probes(ctx):
    """The inputs of the known finding: comparisons with something that is not a number."""
    g = genfloat.Case("nan", ctx.rng("nan"))
    g.args = [math.nan, 1.0, 1]
    for o in ("<=", ">="):
        for x, y in ((0, 1), (1, 0), (0, 0), (0, 2), (2, 0)):
            g.emit(o, g.args[x], g.args[y], "bool", "args.%d %s args.%d" % (x, o, y))
    g.src = "import std;\nexport func main(args) {\n  const out = [];\n%s  return out;\n}\n" % "".join("  out.append(%s);\n" % s for s in g.st)
    cs = observe([g])
    if cs[0]["log"] or vlib.check_cases(cs, "Float", name=ctx.prop)[0]:
        ctx.violation("comparisons with nan: %s" % cs[0]["seen"][:300], dict(source=g.src, seen=cs[0]["seen"]), key="nan-order")


def run(ctx):
    ctx.rule = RULE
    probes(ctx)
    n = ctx.n(1500, 40000)
    for part, pre, share in (("operations", [], .9), ("operations gc", [["gcperiod", 1]], .1)):
        k = int(n * share)
        for lo in range(0, k, 4000):
            gs = {g.id: g for g in (genfloat.make("%s%d" % (part[-1], j), ctx.rng(part, j)) for j in range(lo, min(k, lo + 4000)))}
            cs = observe(list(gs.values()), pre)
            ctx.nontrivial.update(g.src for g in gs.values() if len(g.ops) >= 10)
            ctx.counts["operations checked"] += sum(len(c["ops"]) for c in cs)
            ctx.sample(dict(source=gs[cs[0]["id"]].src[:600], operations=cs[0]["ops"][:3]))

            def describe(c, info):
                g = gs[c["id"]]
                w = info.split()[-1]
                j = int(w) - 1 if w.isdigit() else 0
                o = g.ops[j] if j < len(g.ops) else None
                return "%s `%s` of %s: %s %s" % (info, g.st[j] if o else "", str(o)[:120], str(c["ops"][j])[:200], c["log"]), dict(source=g.src, args=[repr(x) for x in g.args], operations=c["ops"], seen=c["seen"])
            ctx.cases(cs, "Float", lambda ids: observe([gs[j] for j in ids], pre), part=part, describe=describe)
            if ctx.violations: return
