"""C13: random text programs decided by Text.tla; and random programs with strings validated against TiroCore."""
import vlib
from gentext import make
from checks.progs import run_profiles

RULE = ("seeded random text programs (gentext.py): literals with escapes and characters of all planes, interpolation, builders, slices of slices, host strings of "
        "arbitrary bytes; every text, size, comparison, search and iteration of the real run is compared with the byte sequences Text.tla computes; malformed "
        "literals have to be rejected; non-trivial: accepted programs with at least 10 observations")


def plain(x):
    if x[0] == "i":
        return [int(x[1])]
    if x[0] == "b":
        return [int(x[1])]
    if x[0] == "s":
        return x[1]
    if x[0] == "a":
        return [e[1][0] if e[0] == "s" and len(e[1]) == 1 else -1 for e in x[1]]
    return [-2]


def observe(gs, pre=()):
    logs = vlib.run_host([dict(id=g["id"], timeout=60, cmds=list(pre) + [["vm", "v"], ["std", "v"], ["load", "v", "m", g["src"]], ["export", "v", "m", "main", "main"],
                                                                 ["-call", "v", "main", ["t", [["t", g["host"]]]], "out"], ["bytes", "v", "out"]]) for g in gs], name="C13")
    cs = []
    for g in gs:
        ev = logs[g["id"]]
        rejected = bool(ev) and ev[0][:3] == ["load", "m", "COMPILE"] and bool(ev[0][4])
        b = [e for e in ev if e[0] == "bytes"]
        ok = not rejected and b and b[0][2][0] == "a" and ev[-1][0] == "end"
        cs.append(dict(id=g["id"], ops=g["ops"], rejected=rejected, r=[plain(x) for x in b[0][2][1]] if ok else []))
    return cs


def run(ctx):
    ctx.rule = RULE
    n = ctx.n(3000, 60000)
    for part, pre, share, kw in (("texts", [], .7, {}), ("texts gc", [["gcperiod", 1]], .3, dict(malformed=.01))):
        k = int(n * share)
        for lo in range(0, k, 4000):
            gs = {"%s%d" % (part[-1], j): make("%s%d" % (part[-1], j), ctx.rng(part, j), **kw) for j in range(lo, min(k, lo + 4000))}
            cs = observe(list(gs.values()), pre)
            ctx.nontrivial.update(g["src"] for g, c in zip(gs.values(), cs) if len(c["r"]) >= 10)
            ctx.counts["rejected literals"] += sum(c["rejected"] for c in cs)
            ctx.sample(dict(source=cs and gs[cs[0]["id"]]["src"], observed=cs[0]["r"][:8]))
            ctx.cases(cs, "Text", lambda ids: observe([gs[j] for j in ids], pre), part=part,
                      describe=lambda c, info: ("%s of\n%s" % (info, gs[c["id"]]["src"][:900]), dict(source=gs[c["id"]]["src"], host=gs[c["id"]]["host"], ops=c["ops"], observed=c["r"])))
            if ctx.violations:
                return
    run_profiles(ctx, [("strings", dict(strings=.5, interp=.4, cont=.1), 1)], 300, 6000)
    ctx.rule = RULE
