from checks.progs import run_profiles


def run(ctx):
    run_profiles(ctx, [
        ("order", dict(wrap=0.5, asg=0.35, tasg=0.25, sc=0.2, chain=0.1), 0.4),
        ("chain", dict(chain=0.4, sc=0.35, wrap=0.4, ill=0.06), 0.3),
        ("jumps", dict(wrap=0.4, sc=0.3, ret=0.25, loop=0.3, ifs=0.3, asg=0.3), 0.15),
        ("panics", dict(wrap=0.5, panic=0.2, catch=0.2, ill=0.12, interp=0.15, asg=0.3), 0.15)], 900, 20000)
