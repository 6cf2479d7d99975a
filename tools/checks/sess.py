"""Checks decided by random host sessions validated against TiroCore, and by exhaustive exploration of small worlds."""
import mc, scen
from gensess import session

RULE = ("seeded random host sessions (gensess.py, weights of this property): coroutines, native functions of all kinds, tokens, callbacks; every "
        "observation of the real run is compared with the machine of TiroCore.tla; plus all host command sequences over small worlds (TiroMC.tla); "
        "non-trivial: more than 6 observations, distinct log")


def run_sessions(ctx, profiles, quick, thorough, variants=(("", []),)):
    ctx.rule = RULE
    total = ctx.n(quick, thorough)
    for name, w, share in profiles:
        n = max(1, int(total * share))
        step = 2000
        for lo in range(0, n, step):
            ps = [session("%s%d" % (name, i), ctx.rng(name, i), **w) for i in range(lo, min(n, lo + step))]
            ctx.traces_of(ps, variants=variants, part=name)
            if ctx.violations:
                return


def worlds(ctx, names, limit=None):
    if not ctx.violations:
        mc.explore(ctx, [getattr(scen, n + "_world")() + (ctx.n(q, th),) for n, q, th in names], limit=limit, timeout=ctx.n(600, 3000))
