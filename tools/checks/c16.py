"""C16: results of the real operators are judged by Arith.tla."""
import vlib
from vlib import CheckError

RULE = ("operand pairs: all pairs of boundary values (2^k and 10^k neighbourhoods, both signs, bounds of 64 bit and small integers) sampled by the seed, pairs at the "
        "overflow boundary of every operator, random pairs of random widths; each pair is evaluated for every operator at run time, as constants and mixed; "
        "non-trivial: at least one operand needs more than 8 bits")
BIN = ["+", "-", "*", "/", "%", "**", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">="]
ASSIGN = ["+", "-", "*", "/", "%", "**"]
MIN, MAX = -2 ** 63, 2 ** 63 - 1


def num(v):
    m, out = abs(v), []
    while m:
        out.append(m & 255)
        m >>= 8
    return [1 if v < 0 else 0] + out


def lit(v):
    return str(v) if v >= 0 else "(-9223372036854775807 - 1)" if v == MIN else "(-%d)" % -v


def boundary():
    out = {0, 1, 2, 3, 5, 7, 10, MAX, MIN}
    for k in range(1, 64):
        for d in (-2, -1, 0, 1):
            out.update([2 ** k + d, -2 ** k + d])
    for k in range(1, 19):
        out.update([10 ** k, -10 ** k, 10 ** k - 1])
    return sorted(v for v in out if MIN <= v <= MAX)


def pairs(rng, n):
    b = boundary()

    def width():
        v = rng.getrandbits(rng.randint(1, 63))
        return -v if rng.random() < .5 else v

    def clamp(v): return max(MIN, min(MAX, v))
    out = []
    for i in range(n):
        c = rng.random()
        if c < .3:
            p = (rng.choice(b), rng.choice(b))
        elif c < .4:      # sums and differences at the bounds of 64 bits and of small integers
            a, lim = width(), rng.choice([MAX, MIN, 2 ** 62, -2 ** 62, 2 ** 61, -2 ** 61, 2 ** 31, -2 ** 31])
            p = (a, clamp((lim - a if rng.random() < .5 else a - lim) + rng.randint(-2, 2)))
        elif c < .55:     # products at the bounds
            a = width() or 3
            lim = rng.choice([MAX, MIN, 2 ** 62, -2 ** 62])
            p = (a, clamp(lim // a + rng.randint(-2, 2)))
        elif c < .7:      # powers at the bounds
            e = rng.randint(2, 66)
            r = int(round(2 ** (rng.choice([63, 62, 31.5]) / e)))
            p = ((r + rng.randint(-2, 2)) * rng.choice([1, -1]), e)
        elif c < .75:
            p = (rng.choice([-2, -1, 0, 1, 2, 3, width()]), rng.choice([-3, -2, -1, 0, 1, 63, 64, 65, width()]))
        elif c < .85:     # shifts, divisions by small numbers
            p = (rng.choice([width(), rng.choice(b)]), rng.randint(-2, 66))
        else:
            p = (width(), width())
        if rng.random() < .15:
            p = (p[1], p[0])
        out.append(p)
    return out


def decode(v):
    """Result of one operator -> number, [] for a panic, None for anything else."""
    if v[0] == "ok" and v[1][0] == "i":
        return num(int(v[1][1]))
    if v[0] == "ok" and v[1][0] == "b":
        return num(1 if v[1][1] else 0)
    if v[0] == "err" and v[1][0] == "ex":
        return []
    return None


def runtime(items):
    """[(id, (a, b))] -> sessions, expressions per session"""
    ops = BIN + ["u-", "u+", "u~", "u!", "id"] + ["c" + o for o in ASSIGN] + ["e" + o for o in ASSIGN]
    ex = []
    for o in ops:
        if o == "id":
            ex.append("func() = a")
        elif o[0] == "u":
            ex.append("func() = %s a" % o[1:])
        elif o[0] == "c":
            ex.append("func() { var x = a; x %s= b; return x; }" % o[1:])
        elif o[0] == "e":
            ex.append("func() { var x = [0, a]; x[1] %s= b; return x[1]; }" % o[1:])
        else:
            ex.append("func() = a %s b" % o)
    src = "import std;\nexport func ops(a, b) {\n return (%s);\n}\nexport func text(a) { return \"$a\"; }\n" % ",\n  ".join("std.catch_panic(%s)" % e for e in ex)
    sess = []
    for lo in range(0, len(items), 100):
        cmds = [["vm", "v"], ["std", "v"], ["load", "v", "m", src], ["export", "v", "m", "ops", "f"], ["export", "v", "m", "text", "t"]]
        for id, (a, b) in items[lo:lo + 100]:
            cmds.append(["call", "v", "f", ["t", [["i", a], ["i", b]]]])
            cmds.append(["call", "v", "t", ["t", [["i", a]]]])
        sess.append(dict(id="r%d" % lo, cmds=cmds, timeout=30))
    logs = vlib.run_host(sess, name="C16")
    out, text = {}, {}
    for lo in range(0, len(items), 100):
        ev = [e for e in logs["r%d" % lo] if e[0] == "call"]
        for j, (id, p) in enumerate(items[lo:lo + 100]):
            e = ev[2 * j] if 2 * j + 1 < len(ev) else None
            out[id] = e[3][1][1] if e and e[2] == "OK" and e[3][0] == "ok" else None
            text[id] = ev[2 * j + 1][3] if e else None
    names = [o if o in BIN or o[0] == "u" or o == "id" else o[1:] for o in ops]
    return names, out, text


def constant(items, per=12):
    """The same with literals: folded by the compiler, completely or with one operand only."""
    sess, names = [], {}
    for lo in range(0, len(items), per):
        src = ["import std;"]
        for j, (id, (a, b)) in enumerate(items[lo:lo + per]):
            A, B = lit(a), lit(b)
            ex, nm = [], []
            for k, o in enumerate(BIN):
                form = (j + k + lo) % 4
                if form == 0:
                    ex.append("func() = %s %s %s" % (A, o, B))
                elif form == 1:
                    ex.append("func() { const x = %s; const y = %s; return x %s y; }" % (A, B, o))
                elif form == 2:
                    ex.append("func() { const g = func(x) = x %s %s; return g(%s); }" % (o, B, A))
                else:
                    ex.append("func() { const g = func(x) = %s %s x; return g(%s); }" % (A, o, B))
                nm.append(o)
            for o in ["-", "+", "~", "!"]:
                ex.append("func() = %s %s" % (o, A))
                nm.append("u" + o)
            for o in ASSIGN:
                ex.append("func() { var x = %s; x %s= %s; return x; }" % (A, o, B))
                nm.append(o)
            ex.append("func() = %s" % A)
            nm.append("id")
            names[id] = nm
            src.append("export func f%d() { return (%s); }" % (j, ", ".join("std.catch_panic(%s)" % e for e in ex)))
            src.append("export func t%d() { return \"${%s}\"; }" % (j, A))
        cmds = [["vm", "v"], ["std", "v"], ["load", "v", "m", "\n".join(src)]]
        for j, _ in enumerate(items[lo:lo + per]):
            cmds += [["export", "v", "m", "f%d" % j, "f"], ["call", "v", "f", ["NULL"]], ["export", "v", "m", "t%d" % j, "f"], ["call", "v", "f", ["NULL"]]]
        sess.append(dict(id="c%d" % lo, cmds=cmds, timeout=30))
    logs = vlib.run_host(sess, name="C16")
    out, text = {}, {}
    for lo in range(0, len(items), per):
        ev = [e for e in logs["c%d" % lo] if e[0] == "call"]
        for j, (id, p) in enumerate(items[lo:lo + per]):
            e = ev[2 * j] if 2 * j + 1 < len(ev) else None
            out[id] = e[3][1][1] if e and e[2] == "OK" and e[3][0] == "ok" else None
            text[id] = ev[2 * j + 1][3] if e else None
    return names, out, text


def cases_of(items, kind):
    names, out, text = (runtime if kind == "r" else constant)(items)
    cs = []
    for id, (a, b) in items:
        nm = names if kind == "r" else names[id]
        r = [decode(v) for v in out[id]] if out[id] else [None] * len(nm)
        # anything that is neither a number nor a panic can never be right
        cs.append(dict(id=kind + id, k="ops", ops=nm, a=num(a), b=num(b), r=[[2] if x is None else x for x in r]))
        t = text[id]
        s = t[1][1] if t and t[0] == "ok" and t[1][0] == "s" else ""
        digits = s.lstrip("-")
        cs.append(dict(id="t" + kind + id, k="text", a=num(a), sign=1 if s.startswith("-") else 0, ds=[int(d) for d in digits] if digits.isdigit() else [0, 0]))
    return cs


def literals(rng, n):
    out = []
    for i in range(n):
        base = rng.choice([10, 10, 16, 2, 8])
        v = rng.choice([MAX, MAX + 1, 2 ** 64, 2 ** 62, 2 ** 64 + rng.getrandbits(8)]) if rng.random() < .3 else rng.getrandbits(rng.randint(1, 66))
        if rng.random() < .2:
            v = rng.choice(boundary()) % 2 ** 64
        ds = []
        x = v
        while x or not ds:
            ds.insert(0, x % base)
            x //= base
        if rng.random() < .1:
            ds.insert(0, 0)
        txt = "".join("0123456789abcdef"[d] if rng.random() < .5 else "0123456789ABCDEF"[d] for d in ds)
        if rng.random() < .3 and len(txt) > 2:
            p = rng.randint(1, len(txt) - 1)
            txt = txt[:p] + "_" + txt[p:]
        out.append(("l%d" % i, base, ds, {10: "", 16: "0x", 2: "0b", 8: "0o"}[base] + txt))
    return out


def literal_cases(lits):
    sess = []
    for id, base, ds, txt in lits:
        sess.append(dict(id=id, cmds=[["vm", "v"], ["std", "v"], ["load", "v", "m", "export func f() = %s;" % txt], ["export", "v", "m", "f", "f"], ["call", "v", "f", ["NULL"]]], timeout=20))
    logs = vlib.run_host(sess, name="C16")
    cs = []
    for id, base, ds, txt in lits:
        ev = logs[id]
        r = [2]
        if ev[0][:3] == ["load", "m", "COMPILE"]:
            r = []
        elif len(ev) > 2 and ev[2][0] == "call" and ev[2][2] == "OK" and ev[2][3][0] == "ok" and ev[2][3][1][0] == "i":
            r = num(int(ev[2][3][1][1]))
        cs.append(dict(id=id, k="lit", base=base, ds=ds, r=r, text=txt))
    return cs


def run(ctx):
    ctx.rule = RULE
    for kind, n, part in [("r", ctx.n(5000, 60000), "pairs at run time"), ("c", ctx.n(2500, 30000), "pairs of constants")]:
        items = [(str(i), p) for i, p in enumerate(pairs(ctx.rng(kind), n))]
        for i, (a, b) in items:
            if max(abs(a), abs(b)) > 255:
                ctx.nontrivial.add((a, b))
        d = dict(items)

        def again(ids):
            want = {i.lstrip("t")[1:] for i in ids}
            return [c for c in cases_of([(i, d[i]) for i in sorted(want)], kind) if c["id"] in ids]

        def describe(c, info):
            a, b = d[c["id"].lstrip("t")[1:]]
            if c["k"] == "text":
                return "text form of %d is wrong" % a, c
            bad = [int(x) - 1 for x in info.strip("{}").split(",")]
            return "operands %d and %d (%s): wrong results %s" % (a, b, part, {c["ops"][j]: c["r"][j] for j in bad}), c
        for lo in range(0, len(items), 10000):
            cs = cases_of(items[lo:lo + 10000], kind)
            ctx.sample(cs[0])
            ctx.cases(cs, "Arith", again, part=part, describe=describe)
            if ctx.violations:
                return
        if ctx.violations:
            return
    lits = literals(ctx.rng("lit"), ctx.n(1500, 10000))
    byid = {x[0]: x for x in lits}
    ctx.cases(literal_cases(lits), "Arith", lambda ids: literal_cases([byid[i] for i in ids]), part="literals", describe=lambda c, info: ("literal %s has the value %s" % (c["text"], c["r"]), c))
