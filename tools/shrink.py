"""Greedy reduction of generated programs (debugging aid; also used to write small replay files)."""
import copy
from lang import *

EXPRS = {"int", "str", "var", "null", "bool", "flt", "sym", "fn", "bin", "un", "and", "or", "coal", "if", "chain", "call", "mcall", "mem",
         "tf", "idx", "tup", "arr", "set", "map", "rec", "interp", "asg", "casg", "tasg", "blk"}


def paths(e, pre=()):
    yield pre, e
    for i, x in enumerate(e.c):
        if x:
            yield from paths(x, pre + (i,))


def put(root, path, new):
    root = copy.copy(root)
    root.c = list(root.c)
    if len(path) == 1:
        if new is None:
            del root.c[path[0]]
        else:
            root.c[path[0]] = new
    else:
        root.c[path[0]] = put(root.c[path[0]], path[1:], new)
    return root


def candidates(mods):
    for mn, m in mods.items():
        for k in range(len(m.items)):
            mm = Module(m.items[:k] + m.items[k + 1:], m.exports, m.imports)
            yield dict(mods, **{mn: mm})
        for k, it in enumerate(m.items):
            def mk(new):
                return dict(mods, **{mn: Module(m.items[:k] + [new] + m.items[k + 1:], m.exports, m.imports)})
            for path, e in list(paths(it)):
                if not path:
                    continue
                if e.o == "blk":
                    n = len(e.c)
                    if n > 3:
                        for a, b in ((0, n // 2), (n // 2, n)):
                            f = copy.copy(e)
                            f.c = e.c[:a] + e.c[b:]
                            yield mk(put(it, path, f))
                    for i in range(n):
                        f = copy.copy(e)
                        f.c = e.c[:i] + e.c[i + 1:]
                        yield mk(put(it, path, f))
                if e.o in ("arr", "set", "tup", "call", "mcall"):
                    lo = 1 if e.o in ("call", "mcall") else 0
                    for i in range(lo, len(e.c)):
                        f = copy.copy(e)
                        f.c = e.c[:i] + e.c[i + 1:]
                        yield mk(put(it, path, f))
                if e.o in EXPRS and e.o not in ("int", "null", "var"):
                    for x in e.c:
                        if x and x.o in EXPRS and x.o != "blk":
                            yield mk(put(it, path, x))
                    if e.o != "blk" and e.o != "fn":
                        yield mk(put(it, path, Int(1)))
                        yield mk(put(it, path, Null()))
                if e.o in ("while", "for", "each", "if", "defer", "blk"):
                    for x in e.c:
                        if x and x.o == "blk":
                            yield mk(put(it, path, x))


def shrink(prog, pred, batch=64, rounds=400):
    """pred(list of programs) -> list of booleans (still interesting)."""
    cur = prog
    for _ in range(rounds):
        found = None
        buf = []

        def flush():
            ok = pred(buf)
            for p, o in zip(buf, ok):
                if o:
                    return p
            return None
        n = 0
        for ms in candidates(cur.modules):
            try:
                p = Program("s%d" % n, ms, cur.cmds, cur.timeout)
                p.host()
            except Exception:
                continue
            n += 1
            buf.append(p)
            if len(buf) >= batch:
                found = flush()
                buf.clear()
                if found:
                    break
        if not found and buf:
            found = flush()
        if not found:
            return cur
        cur = found
    return cur
