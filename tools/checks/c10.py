from checks.progs import run_profiles
from gen import dataflow


def run(ctx):
    run_profiles(ctx, [
        ("plain", dict(), 0.3),
        ("loops", dict(loop=0.4, asg=0.4, ifs=0.3, ret=0.12, wrap=0.08), 0.25),
        ("closures", dict(closure=0.5, fdecl=0.3, loop=0.25, asg=0.3, wrap=0.1), 0.2),
        ("large", dict(size=4, stmts=9, asg=0.4, tasg=0.25, wrap=0.08, depth=3), 0.15),
        ("deep", dict(depth=5, stmts=3, ifs=0.3, sc=0.25), 0.1)], 1000, 25000)
    n = ctx.n(700, 15000)
    for lo in range(0, n, 1500):
        if not ctx.violations:
            ctx.traces_of([dataflow("flow%d" % i, ctx.rng("flow", i)) for i in range(lo, min(n, lo + 1500))], part="flow")
