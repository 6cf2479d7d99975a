"""C24: stack traces (TiroCore.tla with traces switched on) and descriptions of values (Describe.tla)."""
import vlib, gendescribe, genmod
from checks import c14
from gen import profile, program
from gensess import session

RULE = ("random values built and changed by scripts (gendescribe.py: scalars of all kinds, strings of arbitrary bytes, shared and cyclic containers), described on one line and pretty; "
        "Describe.tla states every text; non-trivial: at least 6 observations; random programs and host sessions on machines with stack traces: the names recorded in every exception are compared with the functions active in TiroCore.tla where it was created")


def traced(p):
    assert p.cmds[0][0] == "vm"
    p.cmds[0] = ["vm", p.cmds[0][1], dict(p.cmds[0][2] if len(p.cmds[0]) > 2 else {}, trace=True)]
    return p


def observe(gs, pre=()):
    logs = vlib.run_host([dict(id=g.id, timeout=60, cmds=list(pre) + [["vm", "v"], ["std", "v"], ["load", "v", "m", g.src], ["export", "v", "m", "main", "main"],
                                                                      ["-call", "v", "main", ["t", [["a", [["sb", b] for b in g.host]]]], "out"], ["bytes", "v", "out"]]) for g in gs], name="C24")
    cs = []
    for g in gs:
        ev = logs[g.id]
        b = [e for e in ev if e[0] == "bytes"]
        r = ["".join(map(chr, x[1])) for x in b[0][2][1]] if b and b[0][2][0] == "a" else ["failed: %s" % ev[-3:]]
        cs.append(dict(id=g.id, base=1, names=sorted(gendescribe.NAMES), ops=g.ops, r=r))
    return cs


def describe(ctx):
    n = ctx.n(3000, 60000)
    for part, pre, share in (("descriptions", [], .8), ("descriptions gc", [["gcperiod", 1]], .2)):
        k = int(n * share)
        for lo in range(0, k, 4000):
            gs = {g.id: g for g in (gendescribe.make("%s%d" % (part[-1], j), ctx.rng(part, j)) for j in range(lo, min(k, lo + 4000)))}
            cs = observe(list(gs.values()), pre)
            ctx.nontrivial.update(g.src for g in gs.values() if g.nobs >= 6)
            ctx.sample(dict(source=gs[cs[0]["id"]].src[:600], observed=cs[0]["r"][:4]))
            ctx.cases(cs, "Describe", lambda ids: observe([gs[j] for j in ids], pre), part=part,
                      describe=lambda c, info: ("%s in\n%s" % (info, gs[c["id"]].src[:900]), dict(source=gs[c["id"]].src, host=gs[c["id"]].host, ops=c["ops"], observed=c["r"])))
            if ctx.violations: return


def run(ctx):
    ctx.rule = RULE
    describe(ctx)
    if ctx.violations: return
    n = ctx.n(400, 8000)
    for name, w in [("calls", dict(catch=0.4, panic=0.3, defer=0.2, closure=0.4, depth=4, std=0.3)), ("errors", dict(catch=0.5, panic=0.05, wrong=0.5, closure=0.2, defer=0.2))]:
        ctx.traces_of([traced(program("%s%d" % (name, i), ctx.rng(name, i), profile(**{k: v for k, v in w.items() if k in profile()}))) for i in range(n)], part=name)
        if ctx.violations: return
    ctx.traces_of([traced(session("sess%d" % i, ctx.rng("sess", i), native=8, natives=4, resumables=3, catch=4, panic=0.6, wild=0.3, badargs=0.2, wait=3)) for i in range(n)], part="sess")
    if ctx.violations: return
    ctx.traces_of([traced(genmod.program("mod%d" % i, ctx.rng("mod", i), panics=.25, flaky=.5, waits=.2)) for i in range(n)], part="mod", alternatives=c14.alternatives)
