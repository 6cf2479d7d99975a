"""C22 and C23: the real compiler's concrete syntax tree compared with Lexer.tla and Grammar.tla."""
import json, re
import vlib

LINE = re.compile(r'^( *)(\w+)(@[\d:.]+)( ".*")?$')


def flatten(cst):
    """The dump of the tree -> (token lines, tree lines, number of syntax errors)."""
    toks, tree, errs, inerr = [], [], 0, False
    for l in cst.split("\n")[1:]:
        if inerr:
            errs += bool(l.strip())
            continue
        if not l:
            continue
        if l == "Errors:":
            inerr = True
            continue
        m = LINE.match(l)
        if not m:
            return None
        if m[2] == "Eof":
            continue
        tree.append("%d %s%s" % (len(m[1]) // 2, m[2], m[3]))
        if m[4] is not None:
            toks.append({"KwMap": "Identifier", "KwSet": "Identifier"}.get(m[2], m[2]) + m[3])
    return toks, tree, errs


def observe(texts, prop, mode, all_=False):
    """{id: text or bytes} -> cases; sessions hold many texts each."""
    raw = lambda t: list(t) if isinstance(t, bytes) else t
    ids = list(texts)
    step = 40
    ses = [dict(id="%d" % lo, timeout=60, cmds=[["syntax", raw(texts[i]), all_] for i in ids[lo:lo + step]]) for lo in range(0, len(ids), step)]
    logs = vlib.run_host(ses, name=prop)
    single = {}
    for lo in range(0, len(ids), step):
        ev = logs["%d" % lo]
        part = ids[lo:lo + step]
        if ev[-1][0] == "end" and len(ev) == len(part) + 1:
            single.update((i, e) for i, e in zip(part, ev))
            continue
        one = vlib.run_host([dict(id=i, timeout=30, cmds=[["syntax", raw(texts[i]), all_]]) for i in part], name=prop)
        single.update((i, one[i][0] if one[i][0][0] == "syntax" else ["syntax", json.dumps(one[i][0]), "", [], 0, 0]) for i in part)
    cs = []
    import gensyntax
    for i in ids:
        e = single[i]
        if mode == "bytes":
            cs.append(dict(id=i, mode=mode, b=list(texts[i]), rc=e[1], where=e[3]))
            continue
        f = flatten(e[2])
        rc = e[1] if f or not e[1] in ("OK", "BAD_SOURCE") else "unreadable tree"
        toks, tree, errs = f or ([], [], 0)
        cs.append(dict(id=i, mode=mode, s=[ord(c) for c in texts[i]], u=gensyntax.classes(texts[i]), rc=rc, toks=toks, errs=errs, tree=tree, where=e[3]))
    return cs


def run(ctx, part, texts, mode, all_=False):
    """texts: {id: text}"""
    cs = observe(texts, ctx.prop, mode, all_)
    ctx.counts["accepted by the compiler"] += sum(c["rc"] == "OK" for c in cs)
    if mode != "bytes":
        ctx.counts["syntactically valid"] += sum(c["errs"] == 0 and c["rc"] in ("OK", "BAD_SOURCE") for c in cs)
    for c in cs:
        if mode == "bytes" or len(c["toks"]) >= 3:
            ctx.nontrivial.add(texts[c["id"]])
    if cs:
        ctx.sample(dict(text=repr(texts[cs[-1]["id"]])[:300], observed=cs[-1].get("toks", cs[-1]["where"])[:20]))

    def describe(c, info):
        t = texts[c["id"]]
        seen = c["where"] if mode == "bytes" else c["tree"][:60] if info.startswith("tree") else c["toks"][:60]
        return "%s; text %s; seen %s" % (info[:600], ascii(t)[:400], seen), dict(text=list(t) if mode == "bytes" else t, rc=c["rc"], seen=seen, messages=c["where"])
    ctx.cases(cs, "Grammar", lambda ids: observe({i: texts[i] for i in ids}, ctx.prop, mode, all_), part=part, describe=describe)
