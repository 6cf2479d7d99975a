"""C11: (1) HashIndex.tla: every layout of the hash table design over 5 keys, model checked against the abstract dictionary; its
histories replayed into the real maps and sets; (2) long histories over colliding keys of all kinds validated against TiroCore;
(3) random programs working with containers."""
import json, re
import vlib
from vlib import CheckError
from keys import int_with, str_with
from lang import *
from gen import PRE, profile, program
from checks.progs import RULE

DRIVER = """
import std;
export func run(keys, ops) {
    const m = map{};
    const s = set{};
    const res = [];
    for var i = 0; i < ops.size(); i += 1 {
        const op = ops[i];
        const kind = op / 100;
        if (kind == 1) {
            m[keys[op % 100 - 1]] = i + 1;
            res.append(s.insert(keys[op % 100 - 1]));
        } else if (kind == 2) {
            m.remove(keys[op % 100 - 1]);
            s.remove(keys[op % 100 - 1]);
        } else {
            m.clear();
            s.clear();
        }
    }
    const entries = [];
    for (k, v) in m { entries.append(k); entries.append(v); }
    const ks = [];
    for k in m.keys() { ks.append(k); }
    const vs = [];
    for v in m.values() { vs.append(v); }
    const elems = [];
    for e in s { elems.append(e); }
    const found = [];
    for k in keys { found.append(m[k]); found.append(m.contains(k)); found.append(s.contains(k)); }
    return (entries, ks, vs, elems, found, m.size(), s.size(), res);
}
"""


def val(v):
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, int):
        return ["i", str(v)]
    if v is None:
        return ["null"]
    return ["s", v]


def arg(v):
    return ["i", v] if isinstance(v, int) else ["s", v]


def histories(ctx):
    cfg = "HashIndex6.cfg" if ctx.thorough else "HashIndex.cfg"
    r = vlib.run_tlc("HashIndex", cfg=cfg, workers=8, timeout=3000, heap="8g", name="c11")
    if not r.ok:
        raise CheckError("HashIndex.tla: TLC rc %s\n%s" % (r.rc, r.text[-3000:]))
    ctx.states += r.distinct
    ctx.trans += r.generated
    ctx.counts["table layouts model checked"] = r.distinct
    hist = [l for l in r.text.splitlines() if l.startswith('"HIST|')]
    rng = ctx.rng("hist")
    n = ctx.n(50000, 2000000)
    if len(hist) > n:
        hist = rng.sample(hist, n)
    pools = {}
    sessions, expect = [], {}
    calls = []
    chunk = 400
    for i, line in enumerate(hist):
        _, hv, ops, d = line.strip('"').split("|")
        hs = [int(x) for x in re.findall(r"\d+", hv)]
        flavour = i % 3
        pk = (tuple(hs), flavour)
        if pk not in pools:
            ks, used = [], {}
            for k, x in enumerate(hs):
                used[x & 15] = used.get(x & 15, -1) + 1
                if flavour == 0 or (flavour == 2 and k % 2):
                    ks.append(int_with(x, 15, used[x & 15]))
                else:
                    ks.append(str_with(x, 15, used[x & 15]))
            pools[pk] = ks
        ks = pools[pk]
        code, present, res = [], set(), []
        for o in re.findall(r"[src]\d", ops):
            k = int(o[1])
            code.append({"s": 100, "r": 200, "c": 300}[o[0]] + k)
            if o[0] == "s":
                res.append(k not in present)
                present.add(k)
            elif o[0] == "r":
                present.discard(k)
            else:
                present.clear()
        content = [(int(a), int(b)) for a, b in re.findall(r"(\d+):(\d+)", d)]
        dct = dict(content)
        exp = ["ok", ["t", [["a", [val(x) for k, v in content for x in (ks[k - 1], v)]], ["a", [val(ks[k - 1]) for k, v in content]],
               ["a", [val(v) for k, v in content]], ["a", [val(ks[k - 1]) for k, v in content]],
               ["a", [val(x) for k in range(1, len(ks) + 1) for x in (dct.get(k), k in dct, k in dct)]],
               val(len(content)), val(len(content)), ["a", [val(x) for x in res]]]]]
        calls.append((["call", "v", "run", ["t", [["a", [arg(k) for k in ks]], ["a", [["i", c] for c in code]]]]], exp, ops, hs))
    for lo in range(0, len(calls), chunk):
        sid = "h%d" % lo
        sessions.append({"id": sid, "timeout": 60, "cmds": [["vm", "v"], ["std", "v"], ["load", "v", "m", DRIVER], ["export", "v", "m", "run", "run"]] + [c[0] for c in calls[lo:lo + chunk]]})
        expect[sid] = calls[lo:lo + chunk]

    def compare(sessions):
        bad = []
        logs = vlib.run_host(sessions, name="c11")
        for s in sessions:
            log, exp = logs[s["id"]], expect[s["id"]]
            if log[0] != ["load", "m", "OK"]:
                bad.append((s, 0, log[0]))
                continue
            for j, (cmd, e, ops, hs) in enumerate(exp):
                got = log[2 + j] if 2 + j < len(log) else ["nothing"]
                ctx.evals += 1
                if got != ["call", "run", "OK", e]:
                    bad.append((s, j, got))
                    break
                ctx.traces += 1
        return bad

    for s, j, got in compare(sessions)[:3]:
        again = compare([s])
        if again:
            cmd, e, ops, hs = expect[s["id"]][j]
            ctx.violation("history %s over keys with hashes %s: expected %s, got %s" % (ops, hs, json.dumps(e), json.dumps(got)), dict(driver=DRIVER, call=cmd, expected=e, got=got))
    ctx.nontrivial.update(h[:400] for h in hist)
    ctx.sample(dict(history=hist[len(hist) // 2]))
    ctx.counts["histories replayed"] = len(hist)


def KEY(rng, pool):
    return rng.choice(pool)


def T(n, e):
    return Call(Var("t"), Int(n), e)


def scan(n, m, s, pool):
    """Statements observing everything about the map m and the set s."""
    st = [Each(["k", "v"], Var(m), Blk(Call(Var("t"), Int(n), Var("k"), Var("v"))), True),
          Each(["k"], MCall(Var(m), "keys"), Blk(T(n + 1, Var("k")))),
          Each(["k"], MCall(Var(m), "values"), Blk(T(n + 2, Var("k")))),
          Each(["k"], Var(s), Blk(T(n + 3, Var("k")))),
          T(n + 4, Tup(MCall(Var(m), "size"), MCall(Var(s), "size")))]
    for p in pool:
        st.append(T(n + 5, Tup(Idx(Var(m), p()), MCall(Var(m), "contains", p()), MCall(Var(s), "contains", p()))))
    return st


def long_history(id, rng):
    """A map and a set under a long random history over colliding keys."""
    mask = rng.choice([7, 7, 15, 31])
    hs = [rng.randrange(0, mask + 1) for _ in range(3)]
    pool, used = [], {}
    for i in range(rng.randint(4, 12)):
        x = rng.choice(hs + [(hs[0] + 1) & mask])
        used[x] = used.get(x, -1) + 1
        kind = rng.choice("iiisf")
        if kind == "i":
            n = int_with(x, mask, used[x])
            pool.append(lambda n=n: Int(n))
            if n < 1000 and rng.random() < 0.3:
                pool.append(lambda n=n: Flt(n * 1024))
        elif kind == "s":
            s = str_with(x, mask, used[x])
            pool.append(lambda s=s: Str(s))
        else:
            n = int_with(x, mask, used[x])
            pool.append((lambda n=n: Flt(n * 1024)) if n < 1000 else (lambda n=n: Int(n)))
    pool += rng.sample([lambda: Null(), lambda: Bool(True), lambda: Bool(False), lambda: Sym("red"), lambda: Sym("blue"), lambda: Var("o1"), lambda: Var("o2"),
                        lambda: Flt(512), lambda: Int(0), lambda: Flt(0), lambda: Str(""), lambda: Interp(Str("k"), Int(0)), lambda: Interp(Str("k"), Int(3)), lambda: Var("std")], 5)
    st = [Decl("o1", Tup(Int(1))), Decl("o2", Tup(Int(1)))]
    init = rng.randint(0, 5)
    ks = [rng.choice(pool) for _ in range(init)]
    st += [Decl("m", MapL(*[x for k in ks for x in (k(), Int(rng.randint(0, 9)))])), Decl("s", SetL(*[k() for k in ks]))]
    n = 0
    for i in range(rng.randint(20, 90)):
        k = rng.choice(pool)
        n += 1
        c = rng.random()
        if c < 0.5:
            st += [Asg(Idx(Var("m"), k()), Int(i)), T(n, MCall(Var("s"), "insert", k()))]
        elif c < 0.88:
            st += [MCall(Var("m"), "remove", k()), MCall(Var("s"), "remove", k())]
        elif c < 0.89:
            st += [MCall(Var("m"), "clear"), MCall(Var("s"), "clear")]
        else:
            st.append(T(n, Tup(MCall(Var("m"), "contains", k()), Idx(Var("m"), k()), MCall(Var("s"), "contains", k()), MCall(Var("m"), "size"))))
        if rng.random() < 0.06:
            st += scan(1000 + 10 * n, "m", "s", pool)
    st += scan(5000, "m", "s", pool)
    return wrap(id, st)


def wrap(id, st):
    m = Module([Decl("t", Mem(Var("h"), "t"), True), FDecl("main", Fn([], Blk(*st)))], ["main"], [("std", "std"), ("h", "h")])
    return Program(id, {"m": m}, PRE + [["load", "v", "m", ""], ["export", "v", "m", "main", "main"], ["call", "v", "main", ["NULL"]]], timeout=60)


def growing(id, rng, top):
    """Loops filling, thinning out and refilling a map beyond several growth steps."""
    n = rng.randint(top // 2, top)
    mul = rng.choice([1, 1, 3, 8, 64, 1000])
    i = lambda: Var("i")
    key = lambda: Bin("*", i(), Int(mul))
    loop = lambda lo, hi, step, *b: For(Decl("i", Int(lo)), Bin("<", i(), Int(hi)), CAsg("+", i(), Int(step)), Blk(*b))
    st = [Decl("m", MapL()), Decl("s", SetL()), loop(0, n, 1, Asg(Idx(Var("m"), key()), i()), MCall(Var("s"), "insert", key()))]
    for _ in range(rng.randint(1, 3)):
        a, b, c = rng.randint(0, n // 2), rng.randint(n // 2, n), rng.choice([1, 2, 3, 5])
        st.append(loop(a, b, c, MCall(Var("m"), "remove", key()), MCall(Var("s"), "remove", key())))
        if rng.random() < 0.7:
            a, c = rng.randint(0, n), rng.choice([1, 2, 7])
            st.append(loop(a, n + rng.randint(0, 10), c, Asg(Idx(Var("m"), key()), Int(rng.randint(100, 999))), MCall(Var("s"), "insert", key())))
    st += [T(1, Tup(MCall(Var("m"), "size"), MCall(Var("s"), "size"))),
           Decl("sum", Int(0)), Decl("w", Int(1)),
           Each(["k", "v"], Var("m"), Blk(CAsg("+", Var("sum"), Bin("*", Bin("+", Bin("%", Var("k"), Int(97)), Var("v")), Var("w"))), Asg(Var("w"), Bin("+", Bin("%", Var("w"), Int(13)), Int(1))), Asg(Var("sum"), Bin("%", Var("sum"), Int(999983)))), True),
           T(2, Var("sum")),
           Each(["k"], Var("s"), Blk(CAsg("+", Var("sum"), Bin("*", Bin("%", Var("k"), Int(97)), Var("w"))), Asg(Var("w"), Bin("+", Bin("%", Var("w"), Int(13)), Int(1))), Asg(Var("sum"), Bin("%", Var("sum"), Int(999983))))),
           T(3, Var("sum")),
           Decl("hits", Int(0)), loop(0, n + 12, 1, If(MCall(Var("m"), "contains", key()), Blk(CAsg("+", Var("hits"), i()))), If(MCall(Var("s"), "contains", key()), Blk(CAsg("+", Var("hits"), Int(1))))),
           T(4, Var("hits"))]
    return wrap(id, st)


def run(ctx):
    ctx.rule = "distinct histories printed by TLC and replayed, plus " + RULE
    histories(ctx)
    if ctx.violations:
        return
    n = ctx.n(250, 5000)
    ctx.traces_of([long_history("L%d" % i, ctx.rng("long", i)) for i in range(n)], part="history", limit=3000)
    if not ctx.violations:
        ctx.traces_of([growing("G%d" % i, ctx.rng("grow", i), 60 if i % 4 else 330) for i in range(ctx.n(24, 200))], part="growing")
    if not ctx.violations:
        ctx.traces_of([program("R%d" % i, ctx.rng("maps", i), profile(cont=0.7, loop=0.3, asg=0.2)) for i in range(ctx.n(250, 8000))], part="random")
