"""C21: random sessions of host calls, many of them improper, validated against the Api section of TiroCore; plus sessions of the coroutine and module functions."""
from checks.apis import RULE, run_api
from checks.sess import run_sessions


def run(ctx):
    run_api(ctx, [("wrong", dict(wrong=.35, modes=.3, scripts=.12), .5), ("mixed", dict(wrong=.15, modes=.2, scripts=.25), .5)], 2400, 60000)
    if not ctx.violations:
        run_sessions(ctx, [("host", dict(badargs=.5, cmdops=.3, wild=.5), 1)], 400, 8000)
    ctx.rule = RULE
