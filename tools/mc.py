"""Exhaustive exploration of the specification with a nondeterministic host (TiroMC) and replay of every transition."""
import json, os, time
import vlib
from vlib import CheckError
from lang import Program


def matches(s, a):
    """Recorded value against specified value; "*" stands for a text that is not specified."""
    if s == "*":
        return isinstance(a, str)
    if isinstance(s, list):
        return isinstance(a, list) and len(s) == len(a) and all(matches(x, y) for x, y in zip(s, a))
    return type(s) == type(a) and s == a


def explore(ctx, scen, limit=None, workers=4, timeout=600, part="host menu", alternatives=None):
    """scen: list of (Program, menu, depth)."""
    d = vlib.workdir(ctx.prop)
    f = os.path.join(d, "mc-%d.ndjson" % time.time_ns())
    with open(f, "w") as fh:
        for p, menu, depth in scen:
            sp = dict(p.spec([]), menu=[c[:3] + [["src"]] if c[0] == "load" else c for c in menu], depth=depth)
            sp["cmds"] = sp["cmds"] + [["mark", "prelude"]]
            fh.write(json.dumps(sp) + "\n")
    r = vlib.run_tlc("TiroMC", env={"TRACES": f}, workers=workers, timeout=timeout, heap="6g", name=ctx.prop)
    os.unlink(f)
    if not r.ok:
        raise CheckError("exploration of the specification failed:\n" + r.text[-3000:])
    edges = [{} for _ in scen]
    for line in r.text.splitlines():
        if line.startswith('"EDGE|'):
            _, tid, ab, h, out = line[1:-1].replace('\\"', '"').replace("\\\\", "\\").split("|", 4)
            edges[int(tid) - 1][tuple(json.loads(h))] = (ab, json.loads(out))
    ctx.states += r.distinct
    ctx.trans += r.generated
    sessions, info = [], {}
    for t, (p, menu, depth) in enumerate(scen):
        inner = {h[:-1] for h in edges[t]}
        leaves = sorted(h for h in edges[t] if h not in inner)
        ctx.counts["%s edges" % part] += len(edges[t])
        if limit and len(leaves) > limit:
            ctx.rng("mc", t).shuffle(leaves)
            ctx.counts["%s behaviours not replayed" % part] += len(leaves) - limit
            leaves = leaves[:limit]
        for h in leaves:
            exp = []
            for i in range(1, len(h) + 1):
                ab, out = edges[t][h[:i]]
                if ab:
                    exp = None
                    break
                exp.append((h[:i], out))
            if exp is None:
                ctx.counts["%s undecided" % part] += 1
                continue
            s = p.host()
            s["id"] = "%s/%d/%s" % (p.id, t, "-".join(map(str, h)))
            s["cmds"] = s["cmds"] + [["mark", "prelude"]] + [["load", c[1], c[2], p.modules[c[2]].source()] if c[0] == "load" else c for c in (menu[i - 1] for i in h)]
            sessions.append(s)
            info[s["id"]] = (p, [menu[i - 1] for i in h], exp)

    def bad(sid, log):
        p, cmds, exp = info[sid]
        if ["mark", "prelude"] not in log:
            return 0, "prelude", log[-3:]
        pos = log.index(["mark", "prelude"]) + 1
        for i, (h, out) in enumerate(exp):
            got = log[pos:pos + len(out)]
            if not matches(out, got):
                return i + 1, out, log[pos:pos + len(out) + 2]
            pos += len(out)
        rest = [e for e in log[pos:] if e[0] not in ("cleanup", "fin")]
        if rest != [["end"]]:
            return len(exp), "end", rest[:3]
        return None

    logs = vlib.run_host(sessions, name=ctx.prop)
    wrong = [s for s in sessions if bad(s["id"], logs[s["id"]])]
    ctx.evals += len(sessions)
    ctx.traces += len(sessions) - len(wrong)
    ctx.counts["%s behaviours replayed" % part] += len(sessions)
    for s in sessions:
        if len(logs[s["id"]]) > 6:
            ctx.nontrivial.add(json.dumps(logs[s["id"]][3:]))
    if wrong:
        logs = vlib.run_host(wrong[:40], name=ctx.prop, jobs=2)
        for s in wrong[:40]:
            b = bad(s["id"], logs[s["id"]])
            if b and alternatives:
                p, cmds, exp = info[s["id"]]
                q = Program(s["id"], p.modules, p.cmds + [["mark", "prelude"]] + cmds)
                sps = alternatives(q, logs[s["id"]])
                v, _, _ = vlib.validate(sps, module="TiroTrace", name=ctx.prop)
                if any(v[x["id"]][0] == "ok" for x in sps):
                    ctx.counts["accepted with another order"] += 1
                    continue
            if b and len(ctx.violations) < 4:
                p, cmds, exp = info[s["id"]]
                ctx.violation("%s %s: after %s (command %d) the specification expects %s, the implementation did %s" % (part, s["id"], json.dumps(cmds), b[0], json.dumps(b[1]), json.dumps(b[2])),
                              dict(kind="replay", host=s, expected=[o for _, o in exp], source=p.modules_text(), log=logs[s["id"]]))
        if not ctx.violations and not ctx.counts["accepted with another order"]:
            raise CheckError("%d mismatches did not repeat" % len(wrong))
