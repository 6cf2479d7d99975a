"""Garbage collection transparency: the same programs with collections at every n-th allocation."""
from checks.progs import run_profiles

GC = [("", []), ("@1", [["gcperiod", 1]]), ("@3", [["gcperiod", 3]]), ("@7", [["gcperiod", 7]])]


def run(ctx):
    run_profiles(ctx, [
        ("plain", dict(ill=0.06, panic=0.05, interp=0.2), 0.3),
        ("closures", dict(closure=0.5, fdecl=0.3, loop=0.25, asg=0.3, wrap=0.1, catch=0.15, panic=0.1), 0.3),
        ("containers", dict(cont=0.6, loop=0.25, asg=0.3, interp=0.2), 0.4)], 350, 8000, variants=GC)
