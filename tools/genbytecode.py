"""C19: modules compiled from random sources, and modifications of them."""
import copy, json, os, random, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import gen, genstatic, tirobuild, vlib
from vlib import CheckError

# the operation codes, in order, with their operands (see Bytecode.tla)
OPS = [tuple(x.split(":")) for x in """LoadNull:w LoadFalse:w LoadTrue:w LoadInt:kw LoadFloat:kw LoadParam:pw StoreParam:rp LoadModule:mw StoreModule:rm
LoadMember:ryw StoreMember:rry LoadTupleMember:rcw StoreTupleMember:rrc LoadIndex:rrw StoreIndex:rrr LoadClosure:w LoadEnv:rccw StoreEnv:rrcc
Add:rrw Sub:rrw Mul:rrw Div:rrw Mod:rrw Pow:rrw UAdd:rw UNeg:rw LSh:rrw RSh:rrw BAnd:rrw BOr:rrw BXor:rrw BNot:rw Gt:rrw Gte:rrw Lt:rrw Lte:rrw Eq:rrw NEq:rrw LNot:rw
Array:cw Tuple:cw Set:cw Map:cw Env:rcw Closure:trw Record:sw Iterator:rw IteratorNext:rww Formatter:w AppendFormat:rr FormatResult:rw Copy:rw Swap:xx Push:r Pop: PopTo:w
Jmp:o JmpTrue:ro JmpFalse:ro JmpNull:ro JmpNotNull:ro Call:rc LoadMethod:ryww CallMethod:rc Return:r Rethrow: AssertFail:rr""".split()]
NONE = 2 ** 32 - 1

# every operation at least once
SAMPLES = ["""import std;
import h;
var g = 1;
const k = (x: 1, y: h);
export func main(a, b) = {
  var f = 2.5; var n = 123456789012; const t = (a, b); const s = [a, b, 3]; var m = map { 1: 2, a: 3 }; var q = set { 1, 2 };
  g += f; t.0 += 1; s[0] **= 2; m[a] = 4; k.x = t.1;
  const c = func(v) { n -= 1; return func() = n + v; };
  for e in s { if e > 3 && e < 9 || e == 4 { continue; } if e >= 5 { break; } if e <= 2 { std.print("v ${e} and $n"); } }
  for (x, y) in m { q.insert(x != y); }
  defer std.print(c(1)());
  assert(!(f == 2), "text ${f}");
  (a, b) = (b, a);
  a = a?.foo ?? b?(1) ?? c?[2];
  return -n + +a * 3 / 4 % 5 - (1 << 2 >> 1 & 3 | 4 ^ ~5);
};
func closure() { var i = 0; while i < 10 { i += 1; const j = i; defer { h.take(func() = i + j); }; if i == 3 { return j; } } }
""", "export const a = null;\nexport func f(x) { return x.y.z(x, a); }\n", "export func f(x) = x;\nfunc g(a, b, c, d) { a = b; c.d = b; c.2 = a; a[b] = true; return false; }\n",
"import std;\nfunc f(a) { defer std.print(1); defer std.print(2); for var i = 0; i < 3; i += 1 { defer std.print(i); if a { return #sym; } } }\nexport const z = 3;\n"]


def run_tool(items):
    """[line] -> {id: answer}; the lines are spread over processes"""
    exe = tirobuild.build(name="bytecode", sources=("bytecode.cpp",))
    d = vlib.workdir("bytecode")
    n = min(vlib.CPUS, len(items))

    def part(j):
        i, o = (os.path.join(d, "%s-%d-%d" % (k, j, time.time_ns())) for k in ("in", "out"))
        with open(i, "w") as f:
            for x in items[j::n]:
                f.write(json.dumps(x) + "\n")
        r = subprocess.run([exe, i, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise CheckError("bytecode tool failed: %s" % r.stdout[-2000:])
        out = [json.loads(l) for l in open(o, "rb").read().decode("utf-8", "replace").splitlines()]
        os.unlink(i)
        os.unlink(o)
        return out
    res = {}
    if n:
        with ThreadPoolExecutor(n) as ex:
            for out in ex.map(part, range(n)):
                for x in out:
                    res[x["id"]] = x
    if len(res) != len(items):
        raise CheckError("the bytecode tool lost answers")
    return res


def source(rng):
    c = rng.random()
    if c < .35:
        return next(iter(genstatic.module(rng, 0).sources().values()))
    if c < .45:
        return gen.dataflow("x", rng).modules["m"].source()
    p = rng.choice([dict(), dict(loop=.4, asg=.4, defer=.15), dict(closure=.5, fdecl=.3), dict(defer=.3, panic=.1, catch=.1), dict(cont=.4, tasg=.2, interp=.2), dict(sc=.3, ifs=.3, chain=.2)])
    p = dict(p, funcs=rng.randint(1, 3), stmts=rng.randint(2, 5), depth=rng.randint(2, 3), size=rng.choice([.4, .7, 1.0]))
    return gen.program("x", rng, gen.profile(**p)).modules["m"].source()


# --- modifications --------------------------------------------------------------------------------
def decode(code):
    out, b = [], 0
    while b < len(code):
        name, kinds = OPS[code[b] - 1]
        at = [b + 1]
        for k in kinds:
            at.append(at[-1] + (8 if k == "k" else 4))
        out.append((b, name, kinds, at[:-1]))
        b = at[-1]
    return out


def num(code, p):
    return int.from_bytes(bytes(code[p:p + 4]), "big")


def put(code, p, v):
    code[p:p + 4] = list((v % 2 ** 32).to_bytes(4, "big"))


def vary(rng, v, limit):
    """a number near v or near the limit of what is allowed"""
    return rng.choice([v - 1, v + 1, limit - 1, limit, limit, limit + 1, 0, rng.randrange(limit + 1), NONE, NONE - 1, 2 ** 31, v ^ (1 << rng.randrange(32))]) % 2 ** 32


def operand(rng, m, f, op, want=""):
    ins = decode(f["code"])
    c = [(x, q) for x in ins for q in range(len(x[2])) if not want or x[2][q] in want]
    if not c:
        return False
    (b, name, kinds, at), q = rng.choice(c)
    k, p, code = kinds[q], at[q], f["code"]
    v = num(code, p)
    if k in "rwx":
        put(code, p, vary(rng, v, f["locals"]))
    elif k == "p":
        put(code, p, vary(rng, v, f["params"]))
    elif k in "myst":
        put(code, p, vary(rng, v, len(m["members"])))
    elif k == "o":
        x = rng.choice(ins)
        put(code, p, rng.choice([x[0], x[0] + 1, x[0] + 2, len(code), len(code) - 1, NONE, vary(rng, v, len(code))]))
    elif k == "c":
        put(code, p, rng.choice([v + 1, v - 1, 65536, 65537, 65538, 0, NONE, 3]))
    else:
        code[p + rng.randrange(8)] = rng.randrange(256)
    return True


def bytes_(rng, m, f):
    code = f["code"]
    ins = decode(code)
    c = rng.random()
    if c < .2:
        code[rng.randrange(len(code))] = rng.choice([0, 1, 255, len(OPS), len(OPS) + 1, rng.randrange(256)])
    elif c < .35:
        del code[rng.randrange(len(code)):]                                     # truncated
    elif c < .45:
        code.insert(rng.randrange(len(code) + 1), rng.randrange(256))
    elif c < .55:
        del code[rng.randrange(len(code))]
    elif c < .7:
        x = rng.choice(ins)                                                      # other operation of the same size
        size = sum(8 if k == "k" else 4 for k in x[2])
        same = [q + 1 for q, o in enumerate(OPS) if sum(8 if k == "k" else 4 for k in o[1]) == size]
        code[x[0]] = rng.choice(same)
    elif c < .8:
        x = rng.choice(ins)                                                      # other operation
        code[x[0]] = rng.choice([0, 1, len(OPS), len(OPS) + 1, 255, rng.randrange(1, len(OPS) + 1)])
    elif c < .9:
        del code[ins[-1][0]:]                                                    # last instruction lost
        if rng.random() < .5:
            name = rng.randrange(len(OPS))
            code.append(name + 1)
            for k in OPS[name][1]:
                code += [0] * (8 if k == "k" else 4)
    else:
        x, y = rng.choice(ins), rng.choice(ins)                                  # one instruction repeated elsewhere
        code[y[0]:y[0]] = code[x[0]:x[0] + 1 + sum(8 if k == "k" else 4 for k in x[2])]
    return True


def fields(rng, m, f):
    c = rng.randrange(5)
    if c == 0:
        f["locals"] = rng.choice([0, f["locals"] - 1, f["locals"] + 1, 16384, 16385, NONE]) % 2 ** 32
    elif c == 1:
        f["params"] = rng.choice([0, f["params"] - 1, f["params"] + 1]) % 2 ** 32
        if f["params"] > 10 ** 6:
            f["params"] = 0
    elif c == 2:
        f["closure"] = not f["closure"]
    elif c == 3:
        f["name"] = rng.choice([-1, f["name"] + 1, len(m["members"]), rng.randrange(len(m["members"]))])
    else:
        f["code"] = []
    return True


def handler(rng, m, f):
    hs, ins = f["handlers"], decode(f["code"])
    starts = [x[0] for x in ins]
    c = rng.randrange(5)
    if c == 0 or not hs:
        a, b = sorted([rng.choice(starts), rng.choice(starts + [len(f["code"])])])
        hs.insert(rng.randrange(len(hs) + 1), [a, b, rng.choice(starts)])
    elif c == 1:
        h = rng.choice(hs)
        h[rng.randrange(3)] = rng.choice(starts + [len(f["code"]), len(f["code"]) + 1, -1, starts[-1] + 1, 1, 2 ** 31])
    elif c == 2:
        h = rng.choice(hs)
        q = rng.randrange(3)
        h[q] = h[q] + rng.choice([-1, 1])
    elif c == 3:
        x, y = rng.randrange(len(hs)), rng.randrange(len(hs))
        hs[x], hs[y] = hs[y], hs[x]
        if x == y:
            hs.append(list(hs[x]))
    else:
        h = rng.choice(hs)
        h[0], h[1] = h[1], h[0]
    return True


def member(rng, m, f):
    ms, n = m["members"], len(m["members"])
    c = rng.random()
    if c < .3:
        x, y = rng.randrange(n), rng.randrange(n)
        ms[x], ms[y] = ms[y], ms[x]
    elif c < .7:
        x = rng.choice([q for q in range(n)])
        t = ms[x]
        if t[0] == "String":
            t[1] = None
        elif t[0] in ("Symbol", "Import"):
            t[1] = rng.choice([-1, x, x + 1, n, n + 1, rng.randrange(n), 2 ** 31])
        elif t[0] == "Function":
            t[1] = rng.choice([-1, len(m["functions"]), len(m["functions"]) + 1, rng.randrange(len(m["functions"])), 2 ** 31])
        elif t[0] == "RecordSchema":
            t[1] = rng.choice([-1, len(m["schemas"]), rng.randrange(len(m["schemas"])), 2 ** 31])
        elif t[0] == "Variable":
            t[rng.choice([1, 2])] = rng.choice([-1, n, 2 ** 31, 0])
    elif c < .8:
        del ms[rng.randrange(n):]
        if rng.random() < .5:
            ms += [["Integer", "1"]] * 3
    elif c < .9:
        ms[rng.randrange(n)] = copy.deepcopy(rng.choice(ms))
    else:
        del ms[rng.randrange(n)]
    return True


def tables(rng, m, f):
    n = len(m["members"])
    c = rng.random()
    ids = [-1, 0, n - 1, n, n + 1, rng.randrange(n + 1), rng.randrange(n + 1), 2 ** 31, 2 ** 32 - 2]
    if c < .1:
        m["name"] = rng.choice([None, "m", "other"])
    elif c < .3:
        m["init"] = rng.choice(ids)
    elif c < .6:
        ids = [i for i in ids if i >= 0]        # the builder of modules does not take invalid ids
        if m["exports"] and rng.random() < .6:
            rng.choice(m["exports"])[rng.randrange(2)] = rng.choice(ids)
        else:
            sy = [q for q, x in enumerate(m["members"]) if x[0] == "Symbol"] or ids
            m["exports"].append([rng.choice(sy), rng.choice(ids)])
        seen, out = set(), []
        for e in m["exports"]:                  # the names of exports are different
            if e[0] not in seen:
                seen.add(e[0])
                out.append(e)
        m["exports"] = out
    elif c < .8 and m["schemas"]:
        s = rng.choice(m["schemas"])
        if s:
            s[rng.randrange(len(s))] = rng.choice(ids)
    elif m["functions"]:
        del m["functions"][rng.randrange(len(m["functions"])):]
    return True


KINDS = [("operand", operand, .35), ("bytes", bytes_, .2), ("field", fields, .1), ("handler", handler, .13), ("member", member, .12), ("table", tables, .1)]


def mutant(rng, m):
    """a modified copy of m -> (kinds, module)"""
    x = copy.deepcopy(m)
    kinds = []
    for _ in range(1 if rng.random() < .85 else 2):
        name, fn, _ = rng.choices(KINDS, [k[2] for k in KINDS])[0]
        fs = [f for f in x["functions"] if f["code"]]
        if not fs:
            name, fn = "table", tables
        if not x["members"]:
            break
        try:
            if fs and name == "handler" and rng.random() < .7:
                fs = [f for f in fs if f["handlers"]] or fs
            if fn is operand:
                operand(rng, x, rng.choice(fs), None, rng.choice(["", "rwx", "rwx", "rwx", "p", "myst", "o", "o", "c"]))
            else:
                fn(rng, x, rng.choice(fs) if fs else None)
            kinds.append(name)
        except (IndexError, KeyError, ValueError):
            pass                                # the first modification made the code unreadable
    return kinds, x


def clamp(m):
    """the module as the specification sees it"""
    big = 2147483647

    def c(v):
        return v if v < big else big
    ms = []
    for t in m["members"]:
        ms.append([t[0], "ok" if t[1] is not None else ""] if t[0] == "String" else [t[0]] + [c(v) for v in t[1:]] if t[0] in ("Symbol", "Import", "Function", "RecordSchema") else [t[0]])
    return dict(name="" if m["name"] is None else "ok", init=c(m["init"]), exports=[[c(a), c(b)] for a, b in m["exports"]], members=ms,
                functions=[dict(f, name=c(f["name"]), params=c(f["params"]), locals=c(f["locals"]), handlers=[[c(v) for v in h] for h in f["handlers"]]) for f in m["functions"]],
                schemas=[[c(k) for k in s] for s in m["schemas"]])
