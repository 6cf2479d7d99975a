"""Small closed worlds for the exhaustive exploration: a fixed prelude and a menu of host commands."""
from lang import *

WAIT = ["native", "v", "wait", {"name": "wait", "flavour": "async", "argc": 1, "program": [["tok", ["arg", 0]], ["yield"]]}]
T = ["native", "v", "t", {"name": "t", "flavour": "trace"}]


def std(name, *a): return MCall(Var("std"), name, *a)
def h(name, *a): return MCall(Var("h"), name, *a)
def t(*a): return h("t", *a)


def world(id, fns, natives=(), setup=(), items=()):
    """fns: {name: (params, body statements)}"""
    its = list(items) + [FDecl(n, Fn(ps, Blk(*b))) for n, (ps, b) in fns.items()]
    cmds = [["vm", "v"], ["std", "v"], T, WAIT] + [["native", "v", n, d] for n, d in natives]
    cmds += [["module", "v", "h", [["t", "t"], ["wait", "wait"]] + [[n, n] for n, d in natives]], ["load", "v", "m", ""]]
    cmds += [["export", "v", "m", n, n] for n in fns] + list(setup)
    return Program(id, {"m": Module(its, list(fns), [("std", "std"), ("h", "h")])}, cmds)


def coro(reg, f, *args): return ["coro", "v", reg, f, ["t", list(args)] if args else ["NULL"]]


def queue_world():
    fns = dict(
        a=([], [t(Str("a1")), std("dispatch"), t(Str("a2")), std("dispatch"), t(Str("a3"))]),
        b=([], [t(Str("b1")), std("launch", Var("c"), Str("L")), t(Str("b2")), std("dispatch"), t(Str("b3")), Int(5)]),
        c=(["x"], [t(Str("c1"), Var("x")), std("dispatch"), t(Str("c2"), Var("x")), std("panic", Str("end"))]))
    setup = [coro("c0", "a"), coro("c1", "b"), coro("c2", "c", ["s", "H"])]
    menu = [["start", "v", "c0"], ["start", "v", "c1"], ["start", "v", "c2"], ["run", "v"], ["ready", "v"], ["status", "v", "c1"], ["status", "v", "c2"], coro("c0", "b")]
    return world("queue", fns, [], setup), menu


def token_world():
    fns = dict(
        a=([], [Decl("r", h("wait", Str("k0"))), t(Str("a1"), Var("r")), Decl("q", std("catch_panic", Fn([], Blk(h("wait", Str("k0")))))),
                t(Str("a2"), MCall(Var("q"), "is_success")), Var("r")]),
        b=([], [MCall(Var("toks"), "append", std("coroutine_token")), std("dispatch"), t(Str("b0"), MCall(Idx(Var("toks"), Int(0)), "valid")),
                MCall(Var("toks"), "append", std("coroutine_token")), t(Str("b1"), std("yield_coroutine")), MCall(Var("toks"), "append", std("coroutine_token")),
                t(Str("b2"), h("wait", Str("k1"))), h("quick", Str("k1")), t(Str("b3"), std("yield_coroutine"))]),
        res=(["i"], [If(Bin("<", Var("i"), MCall(Var("toks"), "size")), Blk(Decl("k", Idx(Var("toks"), Var("i"))), Tup(MCall(Var("k"), "valid"), MCall(Var("k"), "resume"), MCall(Var("k"), "valid"))))]))
    quick = ("quick", {"name": "quick", "flavour": "async", "argc": 1, "program": [["tok", ["arg", 0]], ["ret", ["arg", 0]]]})
    setup = [coro("c0", "a"), coro("c1", "b")]
    menu = [["start", "v", "c0"], ["start", "v", "c1"], ["run", "v"], ["tokret", "v", "k0", ["i", 1]], ["tokpanic", "v", "k0", "P"], ["tokret", "v", "k1", ["s", "x"]],
            ["call", "v", "res", ["t", [["i", 0]]]], ["call", "v", "res", ["t", [["i", 1]]]], ["tokfree", "v", "k1"]]
    return world("token", fns, [quick], setup, [Decl("toks", Arr())]), menu


def callback_world():
    fns = dict(
        a=(["x"], [t(Str("a"), Var("x")), h("wait", Str("k0"))]),
        b=([], [h("inner"), std("panic", Str("b"))]))
    inner = ("inner", {"name": "inner", "flavour": "sync", "argc": 0, "program": [["cmd", ["callback", "v", "c0", "in", True, True, []]], ["cmd", ["start", "v", "c2"]], ["cmd", ["run", "v"]], ["cmd", ["status", "v", "c1"]]]})
    setup = [coro("c0", "a", ["i", 1]), coro("c1", "b"), coro("c2", "a", ["i", 2])]
    menu = [["callback", "v", "c0", "x", True, True, [["start", "v", "c2"], ["status", "v", "c0"]]],
            ["callback", "v", "c1", "y", True, True, [["callback", "v", "c2", "z", True, True, [["tokret", "v", "k0", ["i", 9]]]]]],
            ["callback", "v", "c1", "w", False, True, []], ["callback", "v", "a", "bad", True, True, []], ["callback", "v", "c0", "nocb", True, False, []],
            ["start", "v", "c0"], ["start", "v", "c1"], ["run", "v"], ["tokret", "v", "k0", ["i", 3]], ["status", "v", "c2"]]
    return world("callback", fns, [inner], setup), menu


def native_world():
    fns = dict(
        a=(["f", "x"], [Decl("r", std("catch_panic", Fn([], Blk(Call(Var("f"), Var("x")))))), t(Str("a"), MCall(Var("r"), "is_success")),
                        If(MCall(Var("r"), "is_success"), Blk(t(MCall(Var("r"), "value"))), Blk(t(MCall(MCall(Var("r"), "error"), "message")))), Int(1)]),
        b=(["x"], [t(Str("b"), Var("x")), h("wait", Str("k0"))]),
        boom=(["x"], [Defer(t(Str("d"))), std("panic", Str("boom"))]))
    nats = [("yes", dict(name="yes", flavour="sync", argc=1, closure=["s", "C"], program=[["args"], ["log", "c", ["closure"]], ["ret", ["t", [["arg", 0], ["closure"]]]]])),
            ("no", dict(name="no", flavour="sync", argc=0, program=[["panic", ["lit", "no"]]])),
            ("two", dict(name="two", flavour="sync", argc=2, program=[["ret", ["i", 2]]])),
            ("wt", dict(name="wt", flavour="async", argc=1, closure=["i", 4], program=[["log", "w", ["closure"]], ["tok", ["lit", "k1"]], ["yield"]])),
            ("res", dict(name="res", flavour="resumable", argc=1, locals=2, closure=["s", "R"], program={
                "0": [["setlocal", 1, ["arg", 0]], ["invoke", 7, ["reg", "b"], ["t", [["s", "in"]]]]],
                "7": [["log", "inv", ["inv"], ["closure"]], ["setlocal", 0, ["inv"]], ["state", 3]],
                "3": [["invoke", 5, ["reg", "boom"], ["t", [["i", 0]]]]],
                "5": [["ret", ["s", "never"]]]}))]
    setup = []
    menu = [["call", "v", "a", ["t", [["reg", n], ["i", i]]]] for i, n in enumerate(["yes", "no", "two", "wt", "res", "boom"])]
    menu += [["tokret", "v", "k0", ["s", "v0"]], ["tokpanic", "v", "k1", "P1"], ["tokret", "v", "k1", ["i", 6]], ["run", "v"]]
    return world("native", fns, nats, setup), menu


def module_worlds(rng, n, depth):
    """Worlds of three script modules with chosen imports and initialisers; the host loads and uses them in every order."""
    out = []
    names = ["a", "b", "c"]
    for w in range(n):
        mods, late = {}, []
        for i, m in enumerate(names):
            deps = [x for x in names if x != m and rng.random() < .38]
            if rng.random() < .06: deps.append(m)
            if rng.random() < .08: deps.append("missing")
            use = [Mem(Var(d), "v") for d in deps if d in names and d != m]
            items = []
            kind = rng.choice(["plain", "plain", "plain", "none", "panic", "flaky", "wait"])
            e = t(Str(m), *use)
            if kind == "panic":
                e = Blk(e, If(Bool(True), Blk(std("panic", Str("no")))), Int(1))
            elif kind == "flaky":
                e = Blk(e, If(Bin("<", MCall(Var("st"), "tick"), Int(2)), Blk(std("panic", Str("not yet")))), Str("late"))
            elif kind == "wait":
                e = Blk(e, h("wait", Str("k")))
            if kind != "none":
                items.append(Decl("v", Blk(e, Arr(Str(m), *use)) if kind == "plain" else e, True))
                items.append(Decl("v2", Arr(), True))
            items.append(FDecl("f", Fn([], Blk(t(Str("f" + m), *(use + ([Var("v")] if kind != "none" else []))), Return(Str(m))))))
            mods[m] = Module(items, ["f"] + (["v"] if kind != "none" else []), [("std", "std"), ("h", "h"), ("st", "st")] + [(d, d) for d in deps])
            if rng.random() < .35: late.append(m)
        mods["st"] = Module([Decl("n", Arr(Int(0)), True), FDecl("tick", Fn([], Blk(CAsg("+", Idx(Var("n"), Int(0)), Int(1)), Return(Idx(Var("n"), Int(0))))))], ["tick"], [])
        cmds = [["vm", "v"], ["std", "v"], T, WAIT, ["module", "v", "h", [["t", "t"], ["wait", "wait"]]], ["load", "v", "st", ""]]
        cmds += [["set", "v", x, ["s", x]] for x in ("xa", "xb", "xc")]
        cmds += [["load", "v", m, ""] for m in names if m not in late]
        menu = [["load", "v", m, ""] for m in late] + [["export", "v", m, "v", "x" + m] for m in names] + [["export", "v", m, "f", "x" + m] for m in rng.sample(names, 1)]
        menu += [["call", "v", "x" + rng.choice(names), ["NULL"]], ["tokret", "v", "k", ["i", 5]], ["show", "v", "x" + rng.choice(names)]]
        out.append((Program("mods%d" % w, mods, cmds), menu, depth))
    return out
