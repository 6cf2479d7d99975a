"""C26: the C++ interface (include/tiropp) against Cpp.tla."""
import gencpp

RULE = ("random lists of operations on named handles of two machines (gencpp.py): handles created, copied, moved, converted, native objects, results, containers, records, native functions of the three "
        "flavours, coroutines with callbacks, tokens, modules, refused memory requests, explicit collections; Cpp.tla states every result and error and which objects and callbacks may or must be destroyed; "
        "non-trivial: a distinct list in which at least 5 different groups of operations succeed")
PROFILES = [("mixed", .35, {}), ("wrong", .15, dict(wild=.3)), ("refused", .15, dict(fault=.25)), ("coroutines", .2, dict(coroutine=20, coro=10, token=10, run=8, function=8, gc=5)),
            ("ownership", .15, dict(native=10, nat=10, handle=25, gc=10, container=15))]


def run(ctx):
    ctx.rule = RULE
    n = ctx.n(2400, 40000)
    for part, share, kw in PROFILES:
        k = int(n * share)
        for lo in range(0, k, 2000):
            ops = {"%s%d" % (part, j): gencpp.make(ctx.rng(part, j), **kw) for j in range(lo, min(k, lo + 2000))}
            observe = lambda ids: gencpp.observe([dict(id=i, ops=ops[i]) for i in ids])
            cs = observe(list(ops))
            for c in cs:
                if len({o[0] for o, r in zip(c["ops"], c["r"]) if r["o"] == "done"}) >= 5: ctx.nontrivial.add(str(c["ops"]))
                for o, r in zip(c["ops"], c["r"]):
                    t = r["o"].split()
                    ctx.counts["outcome %s" % (t[0] if t and t[0] in ("api", "check", "cast", "error", "fired") else "value")] += 1
            if lo == 0: ctx.sample(dict(ops=cs[0]["ops"][:12], observed=cs[0]["r"][:12]))
            ctx.cases(cs, "Cpp", observe, part=part, describe=lambda c, info: (info + "\n" + "\n".join("%d %s -> %s" % (j + 1, o, r["o"]) for j, (o, r) in enumerate(zip(c["ops"], c["r"])))[-1500:], dict(ops=c["ops"], observed=c["r"])))
            if ctx.violations: return
