import genstale
from checks.sess import run_sessions, worlds


def run(ctx):
    run_sessions(ctx, [
        ("tokens", dict(wait=7, tok=4, resume=4, valid=2, natives=1, resumables=0.3, dispatch=2, callbacks=0), 0.35),
        ("given", dict(given=0.8, tok=6, wait=3, dispatch=4, resume=5, valid=3, launch=4, natives=1, resumables=0, callbacks=0, panic=0.1, ret=0.1), 0.2),
        ("nested", dict(wait=6, catch=3, tok=3, resume=3, natives=2, cmdops=1, wild=0.3), 0.25),
        ("async", dict(wait=5, native=6, natives=4, resumables=1, cmdops=0.6, tok=2), 0.2)], 1500, 30000)
    if not ctx.violations:
        n = ctx.n(500, 10000)
        for lo in range(0, n, 3000):
            ctx.traces_of([genstale.session("stale%d" % i, ctx.rng("stale", i)) for i in range(lo, min(n, lo + 3000))], part="stale tokens")
    worlds(ctx, [("token", 5, 7)])
