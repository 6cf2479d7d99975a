"""Checks decided by random sessions mixing the data functions of the host interface with scripts, validated against TiroCore."""
from genapi import session

RULE = ("seeded random sessions (genapi.py, weights of this property) of host interface calls with proper and improper operands on handles of all kinds and of "
        "script functions working on the same objects; every code, answer and resulting value of the real run is compared with section Api of TiroCore.tla; "
        "non-trivial: more than 6 observations, distinct log")


def run_api(ctx, profiles, quick, thorough, variants=(("", []),)):
    total = ctx.n(quick, thorough)
    for name, w, share in profiles:
        n = max(1, int(total * share))
        for lo in range(0, n, 2000):
            ps = [session("%s%d" % (name, i), ctx.rng(name, i), **w) for i in range(lo, min(n, lo + 2000))]
            ctx.traces_of(ps, variants=variants, part=name)
            if ctx.violations:
                return
