from checks.sess import run_sessions, worlds


def run(ctx):
    run_sessions(ctx, [
        ("callbacks", dict(callbacks=1, natives=0.5, resumables=0, panic=1), 0.6),
        ("nested", dict(callbacks=0.9, cmdops=1.5, native=3, natives=2, resumables=1, panic=0.8, launch=3), 0.4)], 1500, 30000)
    worlds(ctx, [("callback", 6, 7)])
