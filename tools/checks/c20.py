"""C20: several machines at once; the log of each one has to be the log of a machine of its own (TiroCore, Heap, Blocks)."""
import json
import gen, genapi, genblocks, gengraph, genmod, gensess, vlib
from genblocks import Blocks
from gengraph import Graph
from checks import c14
from vlib import CheckError

RULE = ("2 to 4 machines per process, each with a random session of another check (programs, coroutines and callbacks, module graphs, host interface calls, object graphs with finalizers, storage under a limit), "
        "interleaved command by command at random, also inside the native functions and callbacks of another machine, with machines freed in between, or each machine on a thread of its own; "
        "the log of every machine is judged separately by the specification of its session; non-trivial: a distinct log of more than 6 observations")


class Trace:
    """a session judged by TiroCore"""
    def __init__(self, p, kind):
        self.p, self.module, self.kind = p, "TiroTrace", kind

    def cmds(self):
        return self.p.host()["cmds"]

    def case(self, id, log):
        return dict(self.p.spec(log), id=id)


class Graphs:
    def __init__(self, rng, size):
        g = Graph(rng, churn=True, max_natives=rng.choice([5, 30])).build(size)
        self.ops, self.c, self.module = g.ops, g.cmds, "Heap"
        self.vm = rng.choice([{}, {"page": 65536}, {"page": 65536, "max": 1 << 20}])

    def cmds(self):
        return gengraph.commands(self.c, self.vm, [])

    def case(self, id, log):
        f, r = gengraph.observe(log, len(self.ops))
        return dict(id=id, ops=self.ops, fins=f, res=r, max=self.vm.get("max", 0))


class Storage:
    def __init__(self, rng, size):
        self.vm = rng.choice([{}, {"page": 65536, "max": 2 << 20}, {"page": 131072, "max": 4 << 20}])
        b = Blocks(rng, True).build(size, "max" in self.vm)
        self.ops, self.c, self.module = b.ops, b.cmds, "Blocks"

    def cmds(self):
        return genblocks.commands(self.c, self.vm, [])

    def case(self, id, log):
        log = [["mem", 0] if e[0] == "mem" else e for e in log]          # memory of the whole process
        return dict(id=id, ops=self.ops, obs=genblocks.observe(log, self.ops), max=self.vm.get("max", 0), page=self.vm.get("page", 1 << 20))


def machine(rng, id):
    c = rng.random()
    if c < .3:
        kind, p = "sess", gensess.session(id, rng, hostlen=14, faults=False)
    elif c < .5:
        kind, p = "prog", gen.program(id, rng, gen.profile(**rng.choice([dict(funcs=2), dict(defer=.2, panic=.1, catch=.1, funcs=2), dict(closure=.4, cont=.3, funcs=2), dict(strings=.3, interp=.3, funcs=2)])))
    elif c < .65:
        kind, p = "api", genapi.session(id, rng, size=30)
    elif c < .75:
        kind, p = "mod", genmod.program(id, rng)
    elif c < .9:
        return Graphs(rng, rng.randint(20, 60))
    else:
        return Storage(rng, rng.randint(20, 60))
    return Trace(p, kind)


class Group:
    def __init__(self, id, rng, threads):
        self.id, self.threads = id, threads
        n = rng.choice([2, 2, 3, 4])
        self.machines = [machine(rng, "%s.%d" % (id, j)) for j in range(n)]
        cmds = [m.cmds() for m in self.machines]
        if not threads and rng.random() < .4 and all(m.module == "TiroTrace" and m.kind != "sess" for m in self.machines):      # there, the time of collections is observable
            cmds[0] = [["gcperiod", rng.choice([1, 3, 7])]] + cmds[0]
        self.host = dict(id=id, machines=cmds, threads=threads, timeout=60)
        if not threads:
            # a random interleaving, in bursts
            sched, left = [], [len(c) for c in cmds]
            while any(left):
                j = rng.choice([k for k in range(n) if left[k]])
                k = min(left[j], rng.choice([1, 1, 1, 2, 3, 6]))
                left[j] -= k
                sched += [j] * k
            p = rng.choice([0, .1, .3, .6])
            self.host.update(schedule=sched, nest={str(k): [rng.randrange(n), rng.choice([1, 1, 2, 4])] for k in range(200) if rng.random() < p})

    def cases(self, log):
        out = []
        tail = [e for e in log if e[0] in ("crash", "timeout", "exit", "toomany")]
        for j, m in enumerate(self.machines):
            out.append((m.module, m.case("%s.%d" % (self.id, j), [e[2] for e in log if e[0] == "m" and e[1] == j] + tail)))
        return out


def judge(ctx, groups):
    """-> {id of a machine: why}"""
    logs = vlib.run_host([g.host for g in groups], name="C20")
    by, bad = {}, {}
    ps = {m.p.id: m.p for g in groups for m in g.machines if m.module == "TiroTrace" and m.kind == "mod"}
    for g in groups:
        log = logs[g.id]
        foreign = [e for e in log if e[0] not in ("m", "end", "crash", "timeout", "exit", "toomany") or (e[0] == "m" and e[2][0] == "hosterror")]
        for module, c in g.cases(log):
            by.setdefault(module, []).append(c)
            if foreign:
                bad[c["id"]] = "a machine worked for another one: %s" % foreign[:2]
            if log[-1][0] not in ("end", "toomany"):
                bad[c["id"]] = str(log[-1])
            ctx.counts["%s machines%s" % (module, " on threads" if g.threads else "")] += 1
            if len(str(c)) > 2000:
                ctx.nontrivial.add(str(c.get("log") or c.get("obs") or c.get("fins")))
    for module, cs in by.items():
        if module == "TiroTrace":
            cs = [c for c in cs if len(c["log"]) <= 600]
            v, st, tr = vlib.validate(cs, module=module, name="C20")
            for c in cs:
                r = v[c["id"]]
                ctx.counts["verdict " + r[0]] += 1
                ctx.traces += r[0] == "ok"
                if r[0] == "reject":
                    p = ps.get(c["id"])
                    if p and any(x[0] == "ok" for x in vlib.validate(c14.alternatives(p, c["log"]), module=module, name="C20")[0].values()):
                        ctx.counts["accepted with another order of imports"] += 1
                        continue
                    bad[c["id"]] = "specification expects %s, machine did %s (event %s)" % (r[2], r[3], r[1])
        else:
            b, st, tr = vlib.check_cases(cs, module, name="C20")
            ctx.traces += len(cs) - len(b)
            for cid, info in b:
                bad[cid] = info
        ctx.states += st
        ctx.trans += tr
        ctx.evals += len(cs)
    return bad, logs


def run(ctx):
    ctx.rule = RULE
    for part, n, threads in (("interleaved", ctx.n(500, 8000), False), ("threads", ctx.n(250, 4000), True)):
        for lo in range(0, n, 500):
            gs = {"%s%d" % (part[0], j): Group("%s%d" % (part[0], j), ctx.rng(part, j), threads) for j in range(lo, min(n, lo + 500))}
            bad, logs = judge(ctx, list(gs.values()))
            ctx.counts[part] += len(gs)
            g = next(iter(gs.values()))
            ctx.sample(dict(schedule=g.host.get("schedule"), nest=g.host.get("nest"), log=logs[g.id][:20]))
            if not bad:
                continue
            # a rejection counts when it repeats
            ids = sorted({c.split(".")[0] for c in bad})[:6]
            hit = {}
            for _ in range(20 if threads else 3):
                b2, l2 = judge(ctx, [gs[i] for i in ids])
                for c, why in b2.items():
                    hit.setdefault(c, (why, l2[c.split(".")[0]]))
                if hit:
                    break
            for c, (why, log) in list(hit.items())[:3]:
                g = gs[c.split(".")[0]]
                ctx.violation("machine %s of session %s: %s" % (c.split(".")[1], g.id, why[:600]), dict(kind="machines", host=g.host, machine=int(c.split(".")[1]), why=why, log=log[:400]))
            if not hit and not threads:
                raise CheckError("%d rejections did not repeat: %s" % (len(bad), list(bad.items())[:2]))
            if hit:
                return
