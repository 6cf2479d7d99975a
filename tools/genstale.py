"""C05: coroutines that wait in one native call after another, every call with a token of its own that the host keeps and uses again."""
from lang import *
from gensess import std, t


def session(id, rng):
    r = rng
    n = r.randint(1, 2)
    items, names = [], []
    for c in range(n):
        body = []
        for j in range(r.randint(2, 4)):
            k = "c%dk%d" % (c, j)
            names.append(k)
            call = MCall(Var("h"), "wait", Str(k))
            o = r.random()
            if o < .35: body.append(t(Str("w%d" % j), std("catch_panic", Fn([], Blk(call)))))
            elif o < .8: body.append(t(Str("w%d" % j), call))
            else: body += [Decl("v%d" % j, call), std("dispatch"), t(Str("d%d" % j), Var("v%d" % j))]
            if r.random() < .2: body.append(std("dispatch"))
        body.append(Str("end"))
        items.append(FDecl("f%d" % c, Fn([], Blk(*body))))
    m = Module(items, ["f%d" % c for c in range(n)], [("std", "std"), ("h", "h")])
    cmds = [["vm", "v"], ["std", "v"], ["native", "v", "t", {"name": "t", "flavour": "trace"}],
            ["native", "v", "wait", {"name": "wait", "flavour": "async", "argc": 1, "program": [["tok", ["arg", 0]], ["yield"]]}],
            ["module", "v", "h", [["t", "t"], ["wait", "wait"]]], ["load", "v", "m", ""]]
    for c in range(n):
        cmds += [["export", "v", "m", "f%d" % c, "f%d" % c], ["coro", "v", "c%d" % c, "f%d" % c, ["NULL"]], ["start", "v", "c%d" % c]]
    cmds.append(["run", "v"])
    # the tokens in the order in which the calls are made, with uses of earlier ones in between
    todo = {c: [k for k in names if k.startswith("c%d" % c)] for c in range(n)}
    used = []

    def use(k):
        o = r.random()
        cmds.append(["tokret", "v", k, r.choice([["i", r.randint(0, 99)], ["s", "x"], ["null"]])] if o < .6 else ["tokpanic", "v", k, "p%d" % r.randint(0, 99)] if o < .95 else ["tokfree", "v", k])
    while any(todo.values()):
        c = r.choice([c for c in todo if todo[c]])
        k = todo[c].pop(0)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            if used: use(r.choice(used[-4:]))
            if r.random() < .3: cmds.append(["run", "v"])
        use(k)
        used.append(k)
        if r.random() < .3: use(k)
        if r.random() < .85: cmds.append(["run", "v"])
        if r.random() < .1: cmds.append(["gc", "v"])
    cmds += [["run", "v"], ["ready", "v"]] + [["status", "v", "c%d" % c] for c in range(n)]
    return Program(id, {"m": m}, cmds)
