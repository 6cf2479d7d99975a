"""C02: object graph histories decided by Heap.tla."""
import itertools
import vlib
import gengraph
from gengraph import Graph

RULE = ("seeded random histories (gengraph.py) over graphs of natives with finalizers linked through every kind of object that can refer to another, with drops, collections and churn; "
        "all short histories over a small menu; the finalizers seen during every operation are compared with reachability in Heap.tla; non-trivial: histories with at least 3 finalizers before the machine is freed")


def observe(hs, pre=()):
    logs = vlib.run_host([dict(id=h["id"], timeout=60, cmds=gengraph.commands(h["cmds"], h["vm"], list(pre) + h.get("pre", []))) for h in hs], name="C02")
    out = []
    for h in hs:
        f, r = gengraph.observe(logs[h["id"]], len(h["ops"]))
        out.append(dict(id=h["id"], ops=h["ops"], fins=f, res=r, max=h["vm"].get("max", 0)))
    return out


def decide(ctx, hs, part):
    byid = {h["id"]: h for h in hs}
    cs = observe(hs)
    for h, c in zip(hs, cs):
        k = sum(map(len, c["fins"][:-1]))
        ctx.counts["finalizers seen"] += sum(map(len, c["fins"]))
        ctx.counts["operations"] += len(c["fins"])
        ctx.counts["refused (limit)"] += sum(r == "ALLOC" for r in c["res"])
        if k >= 3:
            ctx.nontrivial.add(str(c["ops"]))
    ctx.sample(dict(ops=cs[0]["ops"][:30], finalizers=cs[0]["fins"][:30]))
    ctx.cases(cs, "Heap", lambda ids: observe([byid[j] for j in ids]), part=part,
              describe=lambda c, info: ("%s: %s" % (info, c["ops"][:int(info.rsplit(" ", 1)[1])][-12:] if info[-1].isdigit() else c["ops"][-3:]),
                                        dict(ops=c["ops"], finalizers=c["fins"], results=c["res"], vm=byid[c["id"]]["vm"])))


MENU = [  # operation, commands: a native in x or y, an array in a, links, drops, collection
    (["native", "x", 1, 16], [["set", "v", "x", ["n", "1", 16]]]),
    (["native", "y", 2, 20000], [["set", "v", "y", ["n", "2", 20000]]]),
    (["new", "a", ["x", "y"]], [["set", "v", "a", ["a", [["reg", "x"], ["reg", "y"]]]]]),
    (["new", "b", ["a", "x"]], [["-call", "v", "_mapn", ["t", [["reg", "a"], ["reg", "x"]]], "b"]]),
    (["append", "a", "b"], [["api", "v", "array_push", [["h", "a"], ["h", "b"]], "noerr"]]),
    (["new", "x", ["a"]], [["-call", "v", "_susp", ["t", [["reg", "a"]]], "x"]]),
    (["drop", "x"], [["drop", "v", "x"]]),
    (["drop", "y"], [["drop", "v", "y"]]),
    (["drop", "a"], [["drop", "v", "a"]]),
    (["copy", "g0", "b"], [["-call", "v", "_gset", ["t", [["i", 0], ["reg", "b"]]]]]),
    (["drop", "b"], [["drop", "v", "b"]]),
    (["gc"], [["gc", "v"]]),
]


def short(depth):
    for h in itertools.product(range(len(MENU)), repeat=depth):
        yield h


def menu_history(h, name):
    """Tags have to be unique: the k-th native gets its position as tag. Appending to something that is no array does nothing."""
    ops, cmds, arr = [], [], False
    for k, j in enumerate(h):
        op, cm = MENU[j]
        if op[0] == "native":
            op = op[:2] + [k + 1] + op[3:]
            cm = [["set", "v", op[1], ["n", str(k + 1), op[3]]]]
        if op[1:2] == ["a"] and op[0] in ("new", "drop"):
            arr = op[0] == "new"
        if op[0] == "append" and not arr:
            op = ["none"]
        ops.append(op)
        cmds.append(cm)
    return dict(id=name, ops=ops + [["gc"], ["free"]], cmds=cmds + [[["gc", "v"]], [["free", "v"]]], vm={})


def run(ctx):
    ctx.rule = RULE
    vms = [{}, {}, {"page": 65536}, {"page": 65536, "max": 786432}, {"page": 65536, "max": 1 << 20}, {"page": 131072, "max": 2 << 20}]
    for part, n, size, churn, pre in (("histories", ctx.n(1500, 30000), (20, 140), True, []), ("histories gc", ctx.n(400, 8000), (10, 70), False, [["gcperiod", 1]]),
                                      ("histories gc 7", ctx.n(200, 4000), (10, 70), False, [["gcperiod", 7]])):
        for lo in range(0, n, 3000):
            hs = []
            for j in range(lo, min(n, lo + 3000)):
                rng = ctx.rng(part, j)
                g = Graph(rng, churn=churn, max_natives=rng.choice([5, 30, 60])).build(rng.randint(*size))
                hs.append(dict(id="%s-%d" % (part[-2:].strip(), j), ops=g.ops, cmds=g.cmds, vm=rng.choice(vms), pre=pre))
            decide(ctx, hs, part)
            if ctx.violations:
                return
    # all short histories
    d = ctx.n(3, 4)
    todo = [menu_history(h, "m" + "-".join(map(str, h))) for h in short(d)]
    extra = ctx.n(3000, 60000)
    rng = ctx.rng("menu")
    todo += [menu_history(h, "e%d-%s" % (k, "-".join(map(str, h)))) for k, h in enumerate([tuple(rng.randrange(len(MENU)) for _ in range(7)) for _ in range(extra)])]
    for lo in range(0, len(todo), 6000):
        decide(ctx, todo[lo:lo + 6000], "all histories of %d operations, and longer ones" % d)
        if ctx.violations:
            return
