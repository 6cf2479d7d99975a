"""Coroutines that run out of memory at arbitrary allocations (C03)."""
from lang import *
from gensess import std, t


def source(rng):
    """work(id, steps, each): `steps` reports, giving way after every `each` of them; allocates in various ways."""
    i, id_, acc = Var("i"), Var("id"), Var("acc")
    waste = [
        MCall(acc, "append", Tup(i, Interp(Str("step "), i, Str(" of "), id_))),
        CAsg("+", Var("text"), Int(1)),
        Asg(Idx(Var("m"), i), Rec(p=Arr(i, i), q=Str("x"))),
        MCall(Var("s"), "insert", Interp(Str("k"), i)),
        Decl("tmp", Fn([], Blk(Return(Tup(id_, i))))),
        If(Bin("==", Call(Fn(["x"], Blk(Return(Arr(Var("x"), Var("x"))))), i), Null()), Blk(t(Int(-1)))),
        MCall(Var("sb"), "append", Interp(i, Str("-"), i)),
        Decl("r", std("catch_panic", Fn([], Blk(std("panic", Str("inner")))))),
        Each(["x"], Arr(i, i, i), Blk(Asg(Var("text"), Bin("+", Var("text"), Var("x"))))),
        Blk(Defer(MCall(acc, "append", i)), MCall(acc, "append", Arr())),
        std("new_buffer", Int(100)),
    ]
    body = [Asg(Var("i"), Bin("+", i, Int(1))), t(id_, i), CAsg("+", Var("sum"), Bin("*", i, id_))]
    for w in rng.sample(waste, rng.randint(2, 6)):
        body.insert(rng.randint(1, len(body)), w)
    body.append(If(Bin("==", Bin("%", i, Var("each")), Int(0)), Blk(std("dispatch"))))
    pre = [Decl("i", Int(0)), Decl("sum", Int(0)), Decl("text", Int(0)), Decl("acc", Arr()), Decl("m", MapL()), Decl("s", SetL()), Decl("sb", std("new_string_builder"))]
    return Module([FDecl("work", Fn(["id", "steps", "each"], Blk(*pre, While(Bin("<", i, Var("steps")), Blk(*body)), Return(Var("sum")))))], ["work"], [("std", "std"), ("h", "h")])


class Faults:
    def __init__(self, id, rng):
        self.id = id
        n = rng.randint(1, 6)
        self.steps = [rng.randint(1, 8) for _ in range(n)]
        self.yields = [rng.choice([1, 1, 2, 3, 100]) for _ in range(n)]
        self.module = source(rng)
        cmds = [["vm", "v", {"page": 65536}], ["std", "v"], ["native", "v", "t", {"name": "t", "flavour": "trace"}], ["module", "v", "h", [["t", "t"]]], ["load", "v", "m", self.module.source()],
                ["export", "v", "m", "work", "work"], ["call", "v", "work", ["t", [["i", 99], ["i", 0], ["i", 1]]]], ["mark", "start"]]
        for k in range(n):
            cmds += [["coro", "v", "c%d" % k, "work", ["t", [["i", k + 1], ["i", self.steps[k]], ["i", self.yields[k]]]]], ["start", "v", "c%d" % k]]
        self.plan = []
        for _ in range(rng.randint(1, 4)):
            cmds.append(["fault", rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 300)]), ["run", "v"]])
            cmds.append(["ready", "v"])
            if rng.random() < .3:
                cmds.append(["gc", "v"])
            self.plan += ["run", "ready"]
        cmds += [["run", "v"], ["ready", "v"]]
        self.plan += ["run", "ready"]
        cmds += [["status", "v", "c%d" % k] for k in range(n)]
        self.plan += ["status"] * n
        cmds += [["call", "v", "work", ["t", [["i", 0], ["i", 3], ["i", 1]]]], ["gc", "v"], ["mark", "end"]]
        self.cmds = cmds

    def host(self):
        return dict(id=self.id, cmds=self.cmds, timeout=30)

    def case(self, log):
        """The events of the history; `len` counts the ones that the commands must produce."""
        obs, left = [], 0
        body = log[log.index(["mark", "start"]) + 1:] if ["mark", "start"] in log else []
        last = None
        for e in body:
            if e[0] == "t":
                k = [int(x[1]) for x in e[1:]]
                if k[0] != 0:
                    obs.append(["step", k[0], k[1]])
            elif e[0] == "run":
                obs.append(["run", e[1], False])
                last = obs[-1]
            elif e[0] == "fault":
                if last:
                    last[2] = e[1]
            elif e[0] == "ready":
                obs.append(["ready", e[1]])
            elif e[0] == "status":
                done = e[3] is True and e[4] == "OK" and e[5][0] == "ok"
                obs.append(["status", int(e[1][1:]) + 1, done, int(e[5][1][1]) if done else 0])
                if not (done or (e[2] is True and e[3] is False and e[4] == "BAD_STATE")):
                    obs.append(["bad", e])
            elif e[0] == "call":
                obs.append(["fresh", e[2] == "OK" and e[3] == ["ok", ["i", "0"]]])
        n = len(self.plan) + 1 + sum(o[0] == "step" for o in obs)
        if ["mark", "end"] not in log or log[-1] != ["end"]:
            n = -1
        return dict(id=self.id, steps=self.steps, yields=self.yields, obs=obs, len=n)
