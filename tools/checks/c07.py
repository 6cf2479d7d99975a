from lang import Module, Program
from checks.sess import run_sessions, worlds


def boundary(id, rng):
    """Native functions with the greatest possible numbers of locals and arguments."""
    n, loc, fl = (rng.choice([255, 1023, 1024, 1025]), rng.choice([0, 2]), rng.choice(["sync", "async", "resumable"])) if int(id[1:]) % 3 \
        else (1, rng.choice([16383, 16384, 16384, 16385]), "resumable")
    k = rng.choice([n, n - 1, n + 1])
    d = {"name": "f", "flavour": fl, "argc": n}
    if fl == "resumable":
        i = rng.randrange(loc) if loc else 0
        d["locals"] = loc
        d["program"] = {"0": [["setlocal", i, ["s", "kept"]], ["state", 2]] if loc else [["state", 2]], "2": [["ret", ["arg", n - 1]]]}
    else:
        d["program"] = [["ret", ["arg", n - 1]]]
    return Program(id, {"m": Module([], [], [])}, [["vm", "v"], ["native", "v", "f", d], ["call", "v", "f", ["t", [["i", j] for j in range(k)]]],
                                                   ["call", "v", "f", ["t", [["i", j + 1] for j in range(max(1, n))]]]], timeout=60)


def run(ctx):
    run_sessions(ctx, [
        ("native", dict(native=10, natives=5, resumables=2, cmdops=0.3, wild=0.4, badargs=0.25, callbacks=0, wait=2), 0.4),
        ("resumable", dict(native=10, natives=1, resumables=5, cmdops=0.3, wild=0.3, callbacks=0, wait=4, catch=2, panic=0.6), 0.6)], 1500, 30000)
    if not ctx.violations:
        ctx.traces_of([boundary("B%d" % i, ctx.rng("boundary", i)) for i in range(ctx.n(9, 90))], part="boundary")
    worlds(ctx, [("native", 4, 6)])
