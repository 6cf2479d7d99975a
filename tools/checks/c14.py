import itertools, random
import genmod, mc, scen
from checks import sess

RULE = ("seeded random module worlds (genmod.py): import graphs, initialisers, load orders and orders of use; all host command sequences over worlds of "
        "three modules (TiroMC.tla); non-trivial: more than 6 observations, distinct log")


def alternatives(p, log):
    """The order in which the imports of a module are initialised is not promised: try others."""
    names = [n for n in p.modules if n != "badm"]
    perms = list(itertools.permutations(names)) if len(names) < 6 else [random.Random(i).sample(names, len(names)) for i in range(200)]
    orders = [sorted, lambda d: d, lambda d: d[::-1], lambda d: sorted(d)[::-1]]
    orders += [lambda d, perm=perm: sorted(d, key=lambda n: perm.index(n) if n in perm else -1) for perm in perms[:200]]
    out = []
    for i, f in enumerate(orders):
        p.deporder = f
        s = p.spec(log)
        s["id"] = "%s/alt%d" % (p.id, i)
        out.append(s)
    p.deporder = None
    return out


def run(ctx):
    ctx.rule = RULE
    n = ctx.n(2500, 40000)
    for name, w, share in [("graph", {}, 0.6), ("fail", dict(panics=.25, flaky=.5, waits=.2, missing=.04), 0.4)]:
        for lo in range(0, int(n * share), 2000):
            ps = [genmod.program("%s%d" % (name, i), ctx.rng(name, i), **w) for i in range(lo, min(int(n * share), lo + 2000))]
            ctx.traces_of(ps, part=name, alternatives=alternatives)
            if ctx.violations:
                return
    mc.explore(ctx, scen.module_worlds(ctx.rng("worlds"), ctx.n(40, 400), ctx.n(5, 6)), limit=ctx.n(120, 1000), timeout=ctx.n(600, 3000), part="module menu", alternatives=alternatives)
