"""C19: modules of the compiler and modifications of them, loaded by the real machine and judged by Bytecode.tla."""
import hashlib, json
import genbytecode as gb

RULE = ("modules compiled from random sources (programs of the other checks, declarations of all kinds), and 1 or 2 random modifications of each: operands (registers, parameters, member ids, jump targets, counts "
        "near their limits), bytes, instructions inserted, removed, exchanged, truncated code, fields of functions, handler tables, members, schemas, exports, initializer; non-trivial: a distinct modified module")


def run(ctx):
    ctx.rule = RULE
    per = ctx.n(40, 90)
    src, mods = {}, {}
    rng = ctx.rng("src")
    for k in range(ctx.n(170, 1600)):
        src["s%d" % k] = gb.SAMPLES[k] if k < len(gb.SAMPLES) else gb.source(rng)
    ids = list(src)
    for lo in range(0, len(ids), 160):
        r = gb.run_tool([dict(id=i, src=src[i]) for i in ids[lo:lo + 160]])
        batch = {i: r[i]["m"] for i in ids[lo:lo + 160] if "m" in r[i]}
        muts = {}
        for i, m in batch.items():
            rng = ctx.rng("mut", i)
            muts[i] = [(["compiled"], m)] + [gb.mutant(rng, m) for _ in range(per)]

        def cases_of(cids):
            want = {}
            for c in cids:
                i, j = c.split("-")
                want.setdefault(i, []).append(int(j))
            res = gb.run_tool([dict(id=i, src=src[i], mutants=[muts[i][j][1] for j in js]) for i, js in want.items()])
            out = []
            for i, js in want.items():
                for j, (rc, after) in zip(js, res[i]["r"]):
                    out.append(dict(id="%s-%d" % (i, j), m=gb.clamp(muts[i][j][1]), compiled=j == 0, rc=rc, after=str(after)))
            return out

        def describe(c, info):
            i, j = c["id"].split("-")
            kinds, m = muts[i][int(j)]
            return "%s (%s; loading returned %s, then %s) for a module compiled from:\n%s" % (info, ", ".join(kinds), c["rc"], c["after"], src[i][:1500]), dict(source=src[i], module=m, original=muts[i][0][1], got=[c["rc"], c["after"]])
        cs = cases_of(["%s-%d" % (i, j) for i in muts for j in range(len(muts[i]))])
        for c in cs:
            i, j = c["id"].split("-")
            kinds = muts[i][int(j)][0]
            ctx.counts["%s %s" % ("+".join(sorted(set(kinds))) or "none", c["rc"])] += 1
            if int(j):
                ctx.nontrivial.add(hashlib.sha1(json.dumps(c["m"]).encode()).hexdigest())
        if lo == 0:
            c = cs[1]
            ctx.sample(dict(source=src[c["id"].split("-")[0]][:600], modification=muts[c["id"].split("-")[0]][1][0], result=[c["rc"], c["after"]]))
        ctx.cases(cs, "Bytecode", cases_of, part="modules", describe=describe)
        if ctx.violations:
            return
