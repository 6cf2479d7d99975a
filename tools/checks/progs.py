"""Checks decided by random programs of a profile validated against TiroCore."""
from gen import profile, program

RULE = ("seeded random well-formed programs (generator gen.py, weights of this property), each called with several arguments; every native call, "
        "result and panic of the real run is compared with the machine of TiroCore.tla; non-trivial: more than 6 observations, distinct log")


def run_profiles(ctx, profiles, quick, thorough, variants=(("", []),)):
    """profiles: [(name, weights, share)]"""
    ctx.rule = RULE
    total = ctx.n(quick, thorough)
    for name, w, share in profiles:
        n = max(1, int(total * share))
        step = 1500
        for lo in range(0, n, step):
            ps = [program("%s%d" % (name, i), ctx.rng(name, i), profile(**w)) for i in range(lo, min(n, lo + step))]
            ctx.traces_of(ps, variants=variants, part=name)
            if ctx.violations:
                return
