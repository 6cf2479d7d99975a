from checks.progs import run_profiles


def run(ctx):
    run_profiles(ctx, [
        ("defer", dict(defer=0.4, panic=0.2, catch=0.15, ret=0.12, loop=0.25), 0.5),
        ("nested", dict(defer=0.5, panic=0.3, catch=0.3, ret=0.2, loop=0.3, closure=0.3, depth=4), 0.25),
        ("vars", dict(defer=0.4, panic=0.3, catch=0.1, asg=0.4, ret=0.15, loop=0.3, ifs=0.3, wrap=0.05), 0.25)], 900, 20000)
