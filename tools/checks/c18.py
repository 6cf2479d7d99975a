"""C18: Precedence.tla parenthesises flat operator sequences; the real compiler has to give both texts the same meaning."""
import vlib
from vlib import CheckError
from concurrent.futures import ThreadPoolExecutor
import json, os, re, time

RULE = ("flat operator sequences: every ordered pair of infix operators, a sample of (thorough: all) triples, random longer sequences with prefix operators, suffixes (calls, elements, "
        "members, optional access), assignments and return, written with random spacing, line breaks and comments; compared with the parenthesised form of the specification "
        "under 12 assignments of operands of several types; non-trivial: a regrouped form of the sequence gives another result under one of the assignments")
ASSIGN = ["=", "+=", "-=", "*=", "**=", "/=", "%="]
BIN = ["||", "&&", "??", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "**"]
HEAD = ("import std;\nconst A = [(1, 2, 3, 5), (7, 3, 2, 1), (2, 5, 1, 3), (-3, 2, 4, -1), (6, 0, 2, 9), (0, 1, 0, 4), (true, 3, false, 2), (null, 2, 5, 3), (0.5, 2, -3, 4), (3, null, 1, true), "
        "(false, 4, 2, null), (100, 7, 3, 2)];\n"
        "func each(f) { const r = []; for t in A { r.append(std.catch_panic(func() = f(t.0, t.1, t.2, t.3))); } return r; }\n")
BODY = "func(a, b, c, d) { const g = func(x) = x; const n = null; const h = func(x) = func(y) = x; const r = (x: a, f: g, s: (y: b)); const l = [b, g, [c]]; const t = (c, g); const e = %s; return \"$e|$a|$b|$c|$d|${r.x}|${l[0]}|${l[2][0]}|${r.s.y}\"; }"


def O(x, k="value"): return dict(t="opd", x=x, k=k)
def S(x, k): return dict(t="post", x=x, k=k)


def operand(rng, simple):
    v = rng.choice("abcd")
    c = rng.random()
    if simple or c < .45:
        return [O(v, "place")]
    if c < .55:
        return [O(rng.choice(["1", "2", "3", "0", "10", "true", "null", "0.5", '"s"']))]
    w = rng.choice("abcd")
    return rng.choice([
        [O("g", "place"), S("(%s)" % w, "call")], [O("r", "place"), S(".x", "place")], [O("r", "place"), S(".f", "place"), S("(%s)" % w, "call")],
        [O("l", "place"), S("[0]", "place")], [O("l", "place"), S("[1]", "place"), S("(%s)" % w, "call")], [O("l", "place"), S("[2]", "place"), S("[0]", "place")],
        [O("t", "place"), S(".0", "place")], [O("t", "place"), S(".1", "place"), S("(%s)" % w, "call")], [O("n", "place"), S("?.x", "opt")],
        [O("n", "place"), S("?.x", "opt"), S(".y", "place")], [O("r", "place"), S("?.s", "opt"), S(".y", "place")], [O("r", "place"), S(".s", "place"), S(".y", "place")],
        [O("n", "place"), S("?(%s)" % w, "opt")], [O("l", "place"), S("?[0]", "opt")], [O("n", "place"), S("?[%s]" % w, "opt"), S("(a)", "call")],
        [O("[%s, %s]" % (v, w)), S("[0]", "place")], [O("(%s, %s)" % (v, w)), S(".1", "place")], [O("h", "place"), S("(%s)" % w, "call"), S("(%s)" % v, "call")],
        [O("{ %s; }" % v)], [O("if %s { %s; } else { %s; }" % (v, w, v))], [O("(%s, %s)" % (v, "abcd"[("abcd".index(v) + 1) % 4]), "tuple")]])


def sequence(rng, ops, simple):
    s = []
    for i, op in enumerate(ops + [None]):
        if not simple and rng.random() < .2:
            for _ in range(rng.choice([1, 1, 2])):
                s.append(dict(t="pre", x=rng.choice("+-~!"), k=""))
        if not simple and i and rng.random() < .02:
            s.append(dict(t="open", x="return", k=""))
        s += operand(rng, simple)
        if op:
            s.append(dict(t="bin", x=op, k=""))
    return s


def render(rng, s, plain):
    out = ""
    for j, it in enumerate(s):
        if j:
            must = it["t"] == "open" or s[j - 1]["t"] == "open" or (it["t"] == "pre" and s[j - 1]["t"] in ("bin", "pre")) or it["x"] == "/" or s[j - 1]["x"] == "/"
            if plain:
                sep = "" if it["t"] == "post" or s[j - 1]["t"] == "pre" and it["t"] != "pre" else " "
            else:
                sep = rng.choice([" ", "", "\n", "  \t", "/* - + ( */", " // * (\n", " /* \n */ ", "", " ", "\r\n"])
                if must and not sep.strip(" ") == "" or must and sep == "":
                    sep = " " + sep + " "
            out += sep
        out += it["x"]
    return out


def wrong(rng, s):
    """A parenthesised form with another root."""
    def go(s):
        bins = [i for i, it in enumerate(s) if it["t"] == "bin"]
        if not bins or any(it["t"] == "open" for it in s):
            return "".join(it["x"] for it in s)
        r = rng.choice(bins)
        return "(%s) %s (%s)" % (go(s[:r]), s[r]["x"], go(s[r + 1:]))
    return go(s)


def group(cases):
    """{id: parenthesised text}"""
    d = vlib.workdir("C18")

    def part(j):
        f = os.path.join(d, "seq-%d-%d.ndjson" % (j, time.time_ns()))
        with open(f, "w") as fh:
            for c in cases[j::4]:
                fh.write(json.dumps(dict(id=c["id"], s=c["s"])) + "\n")
        r = vlib.run_tlc("Precedence", env={"TRACES": f}, workers=2, name="C18-%d" % j)
        os.unlink(f)
        if not r.ok:
            raise CheckError("TLC failed (Precedence rc=%s):\n%s" % (r.rc, r.text[-3000:]))
        return r
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(part, range(4)))
    out = {}
    for r in rs:
        for line in r.text.splitlines():
            if line.startswith('"GRP|'):
                _, i, t = line[1:-1].replace('\\"', '"').replace("\\\\", "\\").split("|", 2)
                out[i] = t
    if len(out) != len(cases):
        raise CheckError("%d of %d sequences were grouped" % (len(out), len(cases)))
    return out, sum(r.distinct for r in rs), sum(r.generated for r in rs)


def evaluate(texts, per=40):
    """{key: text} -> {key: result} ("COMPILE" when rejected)"""
    keys = list(texts)
    sess, where = [], {}
    for lo in range(0, len(keys), per):
        ks = keys[lo:lo + per]
        src = HEAD + "\n".join("export func f%d() = each(%s);" % (j, BODY % texts[k]) for j, k in enumerate(ks))
        cmds = [["vm", "v"], ["std", "v"], ["load", "v", "m", src]]
        for j, k in enumerate(ks):
            cmds += [["export", "v", "m", "f%d" % j, "f"], ["call", "v", "f", ["NULL"]]]
        sid = "b%d" % lo
        where[sid] = ks
        sess.append(dict(id=sid, cmds=cmds, timeout=30))
    logs = vlib.run_host(sess, name="C18")
    out, redo = {}, {}
    for sid, ks in where.items():
        ev = logs[sid]
        if ev[0][:3] == ["load", "m", "COMPILE"]:
            if per == 1:
                out[ks[0]] = "COMPILE" if ev[0][4] else "COMPILE without a message"
            else:
                redo.update({k: texts[k] for k in ks})
            continue
        calls = [e for e in ev if e[0] == "call"]
        for j, k in enumerate(ks):
            if j < len(calls):
                out[k] = re.sub("@0x[0-9a-f]+", "@", json.dumps(calls[j][2:]))
            elif per == 1:
                out[k] = json.dumps(ev[-2:])
            else:
                redo[k] = texts[k]
    if redo:
        out.update(evaluate(redo, 1))
    return out


def run(ctx):
    ctx.rule = RULE
    rng = ctx.rng("seq")
    cases = []

    def add(ops, simple, plain):
        s = sequence(rng, ops, simple)
        cases.append(dict(id="p%d" % len(cases), s=s, flat=render(rng, s, plain)))
    for a in BIN + ASSIGN:
        for b in BIN + ASSIGN:
            add([a, b], True, True)
    for a in BIN:
        for b in BIN:
            for c in BIN:
                if ctx.thorough or rng.random() < .4:
                    add([a, b, c], True, True)
    for i in range(ctx.n(8000, 60000)):
        pool = BIN if rng.random() < .75 else BIN + ASSIGN
        k = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        ops = [rng.choice(pool) for _ in range(k)]
        if rng.random() < .2:
            ops[0] = rng.choice(ASSIGN)
        add(ops, rng.random() < .3, rng.random() < .4)
    g, st, tr = group(cases)
    ctx.states += st
    ctx.trans += tr
    byid = {c["id"]: c for c in cases}

    def observe(cs, alt):
        valid = [c for c in cs if g[c["id"]] != "INVALID"]
        texts = {}
        for c in valid:
            texts[c["id"] + "g"] = g[c["id"]]
            texts[c["id"] + "f"] = c["flat"]
        r = evaluate(texts)
        r.update(evaluate({c["id"] + "f": c["flat"] for c in cs if g[c["id"]] == "INVALID"}, 1))
        bad = []
        for c in cs:
            want = "COMPILE" if g[c["id"]] == "INVALID" else r[c["id"] + "g"]
            if r[c["id"] + "f"] != want:
                bad.append((c, want, r[c["id"] + "f"]))
            elif alt:
                ctx.counts["rejected by both" if want == "COMPILE" else "same meaning"] += 1
        if alt:
            # how well the operands tell groupings apart
            w = {c["id"] + "w": wrong(rng, c["s"]) for c in valid[::3] if sum(i["t"] == "bin" for i in c["s"]) > 1}
            w = {k: t for k, t in w.items() if not any(x in t for x in ("=", "return"))}
            rw = evaluate(w)
            for k, v in rw.items():
                ctx.counts["regrouped"] += 1
                if v != r[k[:-1] + "g"]:
                    ctx.counts["regrouped and different"] += 1
                    ctx.nontrivial.add(k)
        return bad
    for lo in range(0, len(cases), 8000):
        cs = cases[lo:lo + 8000]
        bad = observe(cs, True)
        ctx.evals += len(cs)
        ctx.traces += len(cs) - len(bad)
        for c in cs[:1]:
            ctx.sample(dict(flat=c["flat"], grouped=g[c["id"]]))
        if bad:
            again = observe([b[0] for b in bad[:20]], False)
            if not again:
                raise CheckError("%d differences did not repeat" % len(bad))
            for c, want, got in again[:4]:
                ctx.violation("`%s` is to be grouped as `%s`: %s, but evaluates to %s" % (c["flat"], g[c["id"]], want[:300], got[:300]), dict(kind="precedence", flat=c["flat"], grouped=g[c["id"]], want=want, got=got))
            return
