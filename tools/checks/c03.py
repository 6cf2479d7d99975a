"""C03: storage histories decided by Blocks.tla; allocation failures inside host calls validated against TiroCore, inside coroutines against Faults.tla."""
import vlib
import genblocks
import genapi
from genfaults import Faults
from genblocks import Blocks

RULE = ("seeded random histories (genblocks.py) of natives and buffers of many sizes and alignments, drops, collections, exhaustion and scripts, with addresses, contents, error codes "
        "and totals checked by Blocks.tla; host sessions (genapi.py) in which the n-th allocation of a call fails, validated against TiroCore; coroutines (genfaults.py) interrupted by a "
        "failing allocation, checked by Faults.tla; non-trivial: histories with 30 or more blocks, sessions with 6 or more observations, an allocation that failed in a coroutine")


def observe(hs, pre=()):
    logs = vlib.run_host([dict(id=h["id"], timeout=60, cmds=genblocks.commands(h["cmds"], h["vm"], h["pre"])) for h in hs], name="C03")
    return [dict(id=h["id"], ops=h["ops"], obs=genblocks.observe(logs[h["id"]], h["ops"]), max=h["vm"].get("max", 0), page=h["vm"].get("page", 1 << 20)) for h in hs]


def run(ctx):
    ctx.rule = RULE
    vms = [{}, {"page": 65536}, {"page": 65536, "max": 2 << 20}, {"page": 65536, "max": (3 << 20) + 4096}, {"page": 131072, "max": 4 << 20}, {"page": 1 << 20, "max": 8 << 20}]
    for part, n, size, churn, pre in (("storage", ctx.n(500, 20000), (30, 250), True, []), ("storage gc", ctx.n(150, 3000), (20, 100), False, [["gcperiod", 3]])):
        for lo in range(0, n, 2000):
            hs = []
            for j in range(lo, min(n, lo + 2000)):
                rng = ctx.rng(part, j)
                vm = rng.choice(vms)
                b = Blocks(rng, churn).build(rng.randint(*size), "max" in vm)
                hs.append(dict(id="%s-%d" % (part[-2:].strip(), j), ops=b.ops, cmds=b.cmds, vm=vm, pre=pre))
            byid = {h["id"]: h for h in hs}
            cs = observe(hs)
            for c in cs:
                k = sum(len([e for e in o if isinstance(e, list) and e[0] == "block"]) for o in c["obs"])
                ctx.counts["blocks"] += k
                ctx.counts["refused (limit)"] += sum(e == "ALLOC" or (isinstance(e, list) and e[0] == "block" and e[2] == "ALLOC") for o in c["obs"] for e in o)
                if k >= 30:
                    ctx.nontrivial.add(str(c["ops"]))
            ctx.sample(dict(ops=cs[0]["ops"][:20], observed=cs[0]["obs"][:20]))
            ctx.cases(cs, "Blocks", lambda ids: observe([byid[j] for j in ids]), part=part,
                      describe=lambda c, info: ("%s: %s observed %s" % (info, c["ops"][int(info.rsplit(" ", 1)[1]) - 1], str(c["obs"][int(info.rsplit(" ", 1)[1]) - 1:][:1])[:600]),
                                                dict(ops=c["ops"], observed=c["obs"], vm=byid[c["id"]]["vm"])))
            if ctx.violations:
                return
    ps = [genapi.session("fault%d" % j, ctx.rng("fault", j), faults=0.4, size=24, modes=0.05) for j in range(ctx.n(600, 20000))]
    for lo in range(0, len(ps), 2000):
        ctx.traces_of(ps[lo:lo + 2000], variants=(("", []),), part="faults")
        if ctx.violations:
            return
    n = ctx.n(1000, 30000)
    for lo in range(0, n, 3000):
        for part, pre in (("interrupted", []), ("interrupted gc", [["gcperiod", 5]])):
            if pre and lo >= n // 3 + 1:
                continue
            fs = [Faults("%s%d" % ("g" if pre else "i", j), ctx.rng(part, j)) for j in range(lo, min(lo + 3000, n // 3 if pre else n))]
            byid = {f.id: f for f in fs}

            def interrupted(xs):
                logs = vlib.run_host([dict(x.host(), cmds=pre + x.cmds) for x in xs], name="C03")
                return [dict(x.case(logs[x.id]), log=[]) for x in xs]
            cs = interrupted(fs)
            for c in cs:
                k = sum(e[:2] == ["run", "ALLOC"] for e in c["obs"])
                ctx.counts["coroutines interrupted"] += k
                if k:
                    ctx.nontrivial.add(str(c["obs"]))
            ctx.sample(dict(steps=cs[0]["steps"], yields=cs[0]["yields"], observed=cs[0]["obs"]))
            ctx.cases(cs, "Faults", lambda ids: interrupted([byid[j] for j in ids]), part=part,
                      describe=lambda c, info: ("%s: observed %s" % (info, str(c["obs"])[:700]), dict(session=byid[c["id"]].host(), observed=c["obs"], source=byid[c["id"]].module.source())))
            if ctx.violations:
                return
