from checks.sess import run_sessions, worlds


def run(ctx):
    run_sessions(ctx, [
        ("queue", dict(dispatch=8, launch=5, wait=2, natives=0.6, resumables=0, callbacks=0.1, catch=1), 0.6),
        ("mixed", dict(dispatch=4, launch=3, cmdops=1, natives=1.5, callbacks=0.4), 0.4)], 1500, 30000)
    worlds(ctx, [("queue", 6, 8)])
