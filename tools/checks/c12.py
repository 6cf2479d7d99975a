"""C12: (1) random sessions of host calls and scripts on the same containers and (2) random container programs, validated against TiroCore;
(3) containers of up to 100000 elements under bulk operations, decided by Bulk.tla."""
import genbounds, vlib
from checks.apis import RULE, run_api
from checks.progs import run_profiles

LIB = """
import std;
const M = 65521;
export func arr(n, v) { const a = []; for var i = 0; i < n; i += 1 { a.append(v); } return a; }
export func buf(n, v) { const b = std.new_buffer(n); if v != 0 { for var i = 0; i < n; i += 1 { b[i] = v; } } return b; }
export func app(a, n, x, y) { for var i = 0; i < n; i += 1 { a.append(x + y * i); } }
export func clear(a) { a.clear(); }
export func put(a, p, q, n, v, m) {
    const size = a.size();
    for var i = 0; i < n && p + q * i < size; i += 1 { if m { a[p + q * i] = (v + i) % 256; } else { a[p + q * i] = v + i; } }
}
export func obs(a, ps, each) {
    const n = a.size(); var d = 7; var e = 7; const vs = [];
    for var i = 0; i < n; i += 1 { d = (d * 31 + a[i]) % M; }
    if each { for x in a { e = (e * 31 + x) % M; } } else { e = d; }
    for p in ps { vs.append(if p < n { a[p]; } else { -1; }); }
    return (n, d, e, vs);
}
"""


def case(id, rng, top):
    """(operations, host commands)"""
    kind = rng.choice(["array", "array", "array", "buffer", "tuple"])
    size = lambda t=top: rng.choice([rng.randint(0, 40), 2 ** rng.randint(0, max(1, t.bit_length() - 1)) + rng.randint(-1, 1), rng.randint(0, t)])
    cmds = [["vm", "v", {"page": 2 ** rng.choice([16, 18, 20]), "max": 256 * 2 ** 20}], ["std", "v"], ["load", "v", "m", LIB]]
    cmds += [["export", "v", "m", f, f] for f in ("arr", "buf", "app", "put", "obs", "clear")]
    if rng.random() < .3:
        cmds.insert(1, ["gcperiod", rng.choice([3, 50, 400])] if top < 3000 else ["gcperiod", rng.choice([3000, 20000])])
    n = size()
    v = rng.choice([0, 0, 7, 255])
    i = lambda x: ["i", x]
    call = lambda f, *a: ["-call", "v", f, ["t", list(a)]]
    ops, now = [], n
    if kind == "tuple":
        ops.append(["new", n, -1])
        ops[-1][2] = 0
        cmds.append(["-api", "v", "make_tuple", [["z", n], ["h", "c"]], ""])
    elif kind == "buffer":
        ops.append(["new", n, v])
        if v == 0 and rng.random() < .5:
            cmds.append(["-api", "v", "make_buffer", [["z", n], ["h", "c"]], ""])
        else:
            cmds.append(["-call", "v", "buf", ["t", [i(n), i(v)]], "c"])
    else:
        if rng.random() < .5:
            ops.append(["new", n, v])
            cmds.append(["-call", "v", "arr", ["t", [i(n), i(v)]], "c"])
        else:
            ops.append(["new", 0, 0])
            now = 0
            cmds.append(["-api", "v", "make_array", [["z", size()], ["h", "c"]], ""])
    c = ["reg", "c"]
    if kind == "tuple":
        pos = {}
        for _ in range(rng.randint(0, 30)):
            if n:
                p, x = rng.randrange(n), rng.randint(0, 10 ** 6)
                ops.append(["set", p, 1, 1, x])
                pos[p] = x
                cmds += [["-set", "v", "val", i(x)], ["-api", "v", "tuple_set", [["h", "c"], ["z", p], ["h", "val"]], ""]]
            if rng.random() < .1:
                cmds.append(["-gc", "v"])
        ps = sorted(rng.sample(range(n), min(n, 20))) + [p for p in pos][:20]
        cmds.append(["api", "v", "tuple_size", [["h", "c"]], ""])
        for p in ps:
            cmds.append(["api", "v", "tuple_get", [["h", "c"], ["z", p], ["h", "val"]], ""])
        return kind, ops, ps, cmds
    for _ in range(rng.randint(1, 6)):
        o = rng.random()
        if kind == "buffer" or o < .3:
            p, q, m, x = rng.randint(0, max(0, now)), rng.choice([1, 1, 2, 3, 64]), size(), rng.randint(0, 5000)
            ops.append(["bytes" if kind == "buffer" else "set", p, q, m, x])
            cmds.append(call("put", c, i(p), i(q), i(m), i(x), ["b", kind == "buffer"]))
        elif o < .65 and now < 2 * top:
            m, a, b = size(), rng.randint(0, 1000), rng.choice([0, 1, 3])
            ops.append(["append", m, a, b])
            now += m
            cmds.append(call("app", c, i(m), i(a), i(b)))
        elif o < .75:
            m, x = size(3000), rng.randint(0, 1000)
            ops.append(["push", m, x])
            now += m
            cmds += [["-set", "v", "val", i(x)], ["repeat", m, ["-api", "v", "array_push", [["h", "c"], ["h", "val"]], ""]]]
        elif o < .95:
            m = min(3000, max(0, rng.choice([now, now - 1, now + 2, rng.randint(0, now + 1)])))
            ops.append(["pop", m])
            now = max(0, now - m)
            cmds.append(["repeat", m, ["-api", "v", "array_pop", [["h", "c"]], ""]])
        else:
            ops.append(["clear"])
            now = 0
            cmds.append(call("clear", c) if rng.random() < .5 else ["-api", "v", "array_clear", [["h", "c"]], ""])
        if rng.random() < .2:
            cmds.append(["-gc", "v"])
        if rng.random() < .4:
            observe(rng, kind, ops, cmds, now)
    observe(rng, kind, ops, cmds, now)
    return kind, ops, None, cmds


def observe(rng, kind, ops, cmds, now):
    ps = [rng.randint(0, now + 1) for _ in range(8)] + [0, max(0, now - 1), now]
    ops.append(["obs", ps])
    cmds += [["api", "v", kind + "_size", [["h", "c"]], ""], ["call", "v", "obs", ["t", [["reg", "c"], ["a", [["i", p] for p in ps]], ["b", kind == "array"]]]]]


def num(v):
    return int(v[1]) if v[0] == "i" else 0 if v[0] == "null" else -7


def bulk(ctx):
    n = ctx.n(400, 6000)
    for part, top, share in (("small bulk", 300, .6), ("bulk", 12000, .3), ("large bulk", 100000, .1)):
        k = max(1, int(n * share))
        gs = {"%s%d" % (part[0], j): case(j, ctx.rng(part, j), top) for j in range(k)}

        def observed(ids):
            logs = vlib.run_host([dict(id=j, timeout=120, cmds=gs[j][3]) for j in ids], name="C12", jobs=4)
            out = []
            for j in ids:
                kind, ops, ps, _ = gs[j]
                ev = [e for e in logs[j] if e[0] in ("api", "call", "crash", "timeout", "exit")]
                rows = []
                if kind == "tuple":
                    out.append(dict(id=j, k=kind, ops=ops + [["read", ps]], r=[num(ev[0][3]) if ev and ev[0][0] == "api" else -9, [num(e[3]) if e[0] == "api" and e[2] == "OK" else -9 for e in ev[1:]]]))
                    continue
                for a, b in zip(ev[::2], ev[1::2]):
                    if a[0] == "api" and b[0] == "call" and b[3] and b[3][0] == "ok":
                        t = b[3][1][1]
                        rows.append([num(a[3]), num(t[0]), num(t[1]), num(t[2]), [num(x) for x in t[3][1]]])
                    else:
                        rows.append([a, b])
                        break
                if any(type(r[0]) is list for r in rows):
                    rows = [r for r in rows if type(r[0]) is not list]
                out.append(dict(id=j, k=kind, ops=ops, r=rows))
            return out
        cs = observed(list(gs))
        ctx.nontrivial.update(str(c["r"]) for c in cs if c["ops"][0][1] > 2)
        ctx.sample(cs[0])
        ctx.cases(cs, "Bulk", observed, part=part, describe=lambda c, info: ("observation %s of %s differs: %s" % (info, c["ops"], str(c["r"])[:600]), dict(id=c["id"], cmds=gs[c["id"]][3])))
        if ctx.violations:
            return


def run(ctx):
    ctx.rule = RULE + "; bulk: observations of sizes, digests and positions of large containers"
    run_api(ctx, [("api", dict(wrong=.06, modes=.03, scripts=.45), .7), ("apigc", dict(wrong=.1, modes=.03, scripts=.4, size=50), .3)], 1600, 40000,
            variants=(("", []), ("gc", [["gcperiod", 1]])))
    if not ctx.violations:
        run_profiles(ctx, [("containers", dict(cont=0.8, loop=0.25, asg=0.25, tasg=.15, ill=.06), .6), ("illkinds", dict(cont=0.6, ill=.2, catch=.15), .4)], 700, 15000)
    ctx.rule = RULE + "; bulk: observations of sizes, digests and positions of large containers"
    if not ctx.violations:
        n = ctx.n(500, 12000)
        for lo in range(0, n, 3000):
            ctx.traces_of([genbounds.program("edges%d" % i, ctx.rng("edges", i)) for i in range(lo, min(n, lo + 3000))], part="edges")
    if not ctx.violations:
        bulk(ctx)
