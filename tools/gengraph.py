"""Random object graph histories (C02) for Heap.tla and the host commands carrying them out."""

SRC = """import std;
var g0 = null; var g1 = null; var g2 = null;
export func gset(i, x) { if (i == 0) { g0 = x; } else if (i == 1) { g1 = x; } else { g2 = x; } return null; }
export func gget(i) { if (i == 0) { return g0; } if (i == 1) { return g1; } return g2; }
export func arr(x, y) = [x, y];
export func push(a, x) { a.append(x); return null; }
export func setat(a, i, x) { a[i] = x; return null; }
export func getat(a, i) { return a[i]; }
export func tup(x, y) = (x, y);
export func tset(t, i, x) { if (i == 0) { t.0 = x; } else { t.1 = x; } return null; }
export func tget(t, i) { if (i == 0) { return t.0; } return t.1; }
export func mapn(x, y) { const m = map{0: x}; m[1] = y; return m; }
export func mrem(m, k) { m.remove(k); return null; }
export func mget(m, k) { if (m.contains(k)) { return m[k]; } return null; }
export func clear(m) { m.clear(); return null; }
export func rec(x, y) = (p: x, q: y);
export func rset(r, i, x) { if (i == 0) { r.p = x; } else { r.q = x; } return null; }
export func rget(r, i) { if (i == 0) { return r.p; } return r.q; }
export func pair(x) { var v = x; return (func() { return v; }, func(y) { v = y; return null; }); }
export func first(t) = t.0;
export func second(t) = t.1;
export func put(f, y) { f(y); return null; }
export func take(f) { return f(); }
export func bound(a) = a.append;
export func view(m) = m.values();
export func setn(x, y) = set{x, y};
export func insert(s, x) { s.insert(x); return null; }
export func remove(s, x) { s.remove(x); return null; }
export func keym(x) { const m = map{}; m[x] = 1; return m; }
export func oks(x) = std.success(x);
export func errs(x) = std.error(x);
export func value(r) { if (r.is_success()) { return r.value(); } return r.error(); }
func waiting(x) { std.yield_coroutine(); return x; }
export func susp(x) { return std.launch(waiting, x); }
func iterate(a) { for y in a { std.yield_coroutine(); if (y == a) { return 1; } } return 0; }
export func iter(a) { return std.launch(iterate, a); }
func pass(x) { return x; }
export func done(x) { return std.launch(pass, x); }
export func passing(x) { return x; }
var token = null;
func tokened(x) { token = std.coroutine_token(); std.yield_coroutine(); return x; }
export func cowait(x) { return std.launch(tokened, x); }
export func taketok() { const t = token; token = null; return t; }
export func churn_array(n) { for var i = 0; i < n; i += 1 { const a = [i, i]; for var j = 0; j < 20; j += 1 { a.append(a); } } return null; }
export func churn_tuple(n) { for var i = 0; i < n; i += 1 { const t = (i, i, (i, null), (x: i, y: i)); } return null; }
export func churn_map(n) { for var i = 0; i < n; i += 1 { const m = map{i: i}; m[m.size()] = m; const s = set{i, "a"}; s.insert(i + 1); } return null; }
export func churn_string(n) { var s = ""; for var i = 0; i < n; i += 1 { s = "$i-$n-${i * 1000}" ; const b = std.new_string_builder(); b.append(s, s); b.to_string(); } return null; }
export func churn_func(n) { for var i = 0; i < n; i += 1 { var k = i; const f = func() { k = k + 1; return k; }; f(); const g = [f].append; } return null; }
export func churn_coro(n) { for var i = 0; i < n; i += 1 { std.launch(pass, i); if (i % 50 == 0) { std.dispatch(); } } return null; }
export func churn_wait(n) { for var i = 0; i < n; i += 1 { std.launch(waiting, i); if (i % 50 == 0) { std.dispatch(); } } return null; }
export func churn_num(n) { var x = 4611686018427387904; for var i = 0; i < n; i += 1 { x = x + 1; const f = 1.5 * i; } return null; }
export func churn_result(n) { for var i = 0; i < n; i += 1 { const r = std.success(std.error(i)); const q = std.catch_panic(func() { std.panic("x"); }); } return null; }
export func churn_buffer(n) { for var i = 0; i < n; i += 1 { const b = std.new_buffer(100 + i % 900); } return null; }
export func churn_large(n) { for var i = 0; i < n; i += 1 { const b = std.new_buffer(20000 + i % 90000); } return null; }
export func churn_grow(n) { for var i = 0; i < n; i += 1 { const a = []; for var j = 0; j < 3000; j += 1 { a.append(j); } } return null; }
export func churn_deep(n) { for var i = 0; i < n; i += 1 { var a = null; for var j = 0; j < 500; j += 1 { a = [a]; } } return null; }
export func churn_iter(n) { const a = [1, 2]; const m = map{1: 2}; const s = set{1}; for var i = 0; i < n; i += 1 { for x in a { } for x in m { } for x in "ab" { } for x in m.keys() { } for x in s { } } return null; }
"""
EXPORTS = [l.split("(")[0].split()[-1] for l in SRC.splitlines() if l.startswith("export func")]
CHURN = dict(array=1500, tuple=15000, map=6000, string=6000, func=8000, coro=5000, wait=3000, num=30000, result=6000, buffer=8000, large=150, grow=20, deep=150, iter=4000)
SLOTTED = ("array", "tuple", "map", "rec")
WRITE = dict(array="setat", tuple="tset", map="setat", rec="rset")
READ = dict(array="getat", tuple="tget", map="mget", rec="rget")
PRELUDE = [["std", "v"], ["load", "v", "m", SRC]] + [["-export", "v", "m", n, "_" + n] for n in EXPORTS]


class Graph:
    def __init__(self, rng, churn=True, max_natives=30):
        self.r = rng
        self.kind = [None]        # by node
        self.slots = [[]]
        self.reg = {}             # root -> node
        self.ops, self.cmds = [], []
        self.tag = 0
        self.queued = False
        self.churn = churn
        self.natives = 0
        self.max_natives = max_natives
        self.modules = 0
        self.tokens = set()
        self.free_names = ["r%d" % k for k in range(9)]

    # --- graph mirror ------------------------------------------------------------------------------
    def node(self, kind, slots=()):
        self.kind.append(kind)
        self.slots.append(list(slots))
        return len(self.kind) - 1

    def bind(self, r, n):
        if n:
            self.reg[r] = n
        else:
            self.reg.pop(r, None)

    def op(self, op, *cmds, calls=True):
        if self.queued and calls and any(c[0].lstrip("-") == "call" for c in cmds):
            self.op(["run"], ["run", "v"], calls=False)
            self.queued = False
        self.ops.append(op)
        self.cmds.append(list(cmds))

    def call(self, f, args, res=None):
        return ["call", "v", "_" + f, ["t", args]] + ([res] if res else [])

    def regs(self, *kinds):
        return [r for r, n in self.reg.items() if r in self.free_names and self.kind[n] in kinds]

    def any(self, null=.12):
        rs = [r for r in self.reg if r in self.free_names]
        if not rs or self.r.random() < null:
            return self.r.choice(self.free_names)
        return self.r.choice(rs)

    def n(self, x):
        return self.reg.get(x, 0)

    R = staticmethod(lambda x: ["reg", x])

    # --- operations ----------------------------------------------------------------------------------
    def native(self):
        if self.natives >= self.max_natives:
            return
        r = self.r
        x = r.choice(self.free_names)
        self.tag += 1
        self.natives += 1
        size = r.choice([8, 16, 17, 32, 100, 1000, 5000]) if r.random() < .85 else r.choice([16000, 16500, 20000, 40000])
        self.op(["native", x, self.tag, size], ["set", "v", x, ["n", str(self.tag), size, r.choice([1, 2, 8, 16])]])
        self.bind(x, self.node("native"))

    def new(self):
        r = self.r
        x = r.choice(self.free_names)
        k = r.choice(["array", "array", "tuple", "map", "rec", "set", "ok", "err", "bound", "view", "fn", "keym", "coro0", "susp", "done", "harr", "hrec"])
        a, b = self.any(), self.any()
        A, B = self.R(a), self.R(b)
        if k in ("array", "tuple", "map", "rec", "set"):
            f = dict(array="arr", tuple="tup", map="mapn", rec="rec", set="setn")[k]
            if self.queued:
                self.flush()
            if k == "set" and self.n(a) == self.n(b):        # duplicates
                self.op(["new", x, [a]], self.call(f, [A, B], x))
                self.bind(x, self.node(k, [self.n(a)]))
                return
            self.op(["new", x, [a, b]], self.call(f, [A, B], x))
            self.bind(x, self.node(k, [self.n(a), self.n(b)]))
        elif k in ("harr", "hrec"):
            self.op(["new", x, [a, b]], ["set", "v", x, ["a", [A, B]] if k == "harr" else ["r", [["p", A], ["q", B]]]])
            self.bind(x, self.node("array" if k == "harr" else "rec", [self.n(a), self.n(b)]))
        elif k == "fn":
            self.op(["new", x, [a]], ["native", "v", x, dict(flavour="sync", closure=A, program=[])])
            self.bind(x, self.node("fn", [self.n(a)]))
        elif k == "coro0":
            self.op(["new", x, [a]], ["-coro", "v", x, "_passing", ["t", [A]]])
            self.bind(x, self.node("coro0", [self.n(a)]))
        else:
            if self.queued:
                self.flush()
            if k == "bound":
                c = self.regs("array")
            elif k == "view":
                c = self.regs("map")
            elif k == "keym":
                c = self.regs("native")
            else:
                c = [a]
            if not c:
                return
            a = r.choice(c)
            self.op(["new", x, [a]], self.call(dict(ok="oks", err="errs").get(k, k), [self.R(a)], x))
            self.bind(x, self.node(k, [self.n(a)]))

    def flush(self):
        self.op(["run"], ["run", "v"], calls=False)
        self.queued = False

    def pair(self):
        x, y = self.r.sample(self.free_names, 2)
        a = self.any()
        if self.queued:
            self.flush()
        env = self.node("env", [self.n(a)])
        self.op(["pair", x, y, a], self.call("pair", [self.R(a)], "tmp"), self.call("first", [self.R("tmp")], x), self.call("second", [self.R("tmp")], y), ["drop", "v", "tmp"])
        self.bind(x, self.node("getter", [env]))
        self.bind(y, self.node("setter", [env]))

    def cowait(self):
        x, y = self.r.sample(self.free_names, 2)
        a = self.any()
        if self.queued:
            self.flush()
        if self.r.random() < .5:
            self.op(["cowait", x, y, a], self.call("cowait", [self.R(a)], x), self.call("taketok", [], y))
            co = self.node("wait", [self.n(a)])
            self.bind(x, co)
            self.bind(y, self.node("token", [co]))
        else:                                  # suspended in a native function, the host holds the token
            t = "T%d" % len(self.kind)
            self.op(["cowait", x, t, a], ["-native", "v", "async", dict(flavour="async", argc=1, program=[["tok", ["lit", t]], ["yield"]])], ["-coro", "v", x, "async", ["t", [self.R(a)]]],
                    ["-start", "v", x], ["run", "v"], ["drop", "v", "async"])
            co = self.node("hostwait", [self.n(a)])
            self.bind(x, co)
            self.bind(t, self.node("hosttoken", [co]))
            self.tokens.add(t)

    def freetoken(self):
        if self.tokens:
            t = self.r.choice(sorted(self.tokens))
            self.tokens.discard(t)
            self.op(["drop", t], ["tokfree", "v", t])
            self.bind(t, 0)

    def enqueue(self):
        c = self.regs("coro0")
        if not c:
            return
        x = self.r.choice(c)
        self.op(["enqueue", x], ["start", "v", x], calls=False)
        self.kind[self.n(x)] = "started"
        self.queued = True

    def iter(self):
        c = [x for x in self.regs("array") if self.slots[self.n(x)]]
        if not c:
            return
        a = self.r.choice(c)
        x = self.r.choice(self.free_names)
        if self.queued:
            self.flush()
        n = self.n(a)
        self.op(["iter", x, a], self.call("iter", [self.R(a)], x))
        self.bind(x, self.node("susp", [n, self.slots[n][0]]))

    def put(self, n, j, v):
        s = self.slots[n]
        while len(s) <= j:
            s.append(0)
        s[j] = v

    def write(self):
        c = self.regs(*SLOTTED)
        if not c:
            return
        x, y = self.r.choice(c), self.any(.25)
        n = self.n(x)
        k = self.kind[n]
        j = self.r.randrange(len(self.slots[n]) if k == "array" else 2) if k != "array" or self.slots[n] else None
        if j is None:
            return
        if self.queued:
            self.flush()
        if k == "map" and self.r.random() < .3:
            self.op(["set", x, j + 1, "none"], self.call("mrem", [self.R(x), ["i", j]]))
            self.put(n, j, 0)
            return
        if k == "array" and self.r.random() < .4:
            self.op(["set", x, j + 1, y], ["api", "v", "array_set", [["h", x], ["z", j], ["h", y]], ""])
        else:
            self.op(["set", x, j + 1, y], self.call(WRITE[k], [self.R(x), ["i", j], self.R(y)]))
        self.put(n, j, self.n(y))

    def write2(self):
        c = self.regs("setter")
        if not c:
            return
        x, y = self.r.choice(c), self.any(.2)
        if self.queued:
            self.flush()
        self.op(["set2", x, y], self.call("put", [self.R(x), self.R(y)]))
        self.put(self.slots[self.n(x)][0], 0, self.n(y))

    def read(self):
        c = self.regs(*SLOTTED, "ok", "err", "getter")
        if not c:
            return
        y, x = self.r.choice(c), self.r.choice(self.free_names)
        n = self.n(y)
        k = self.kind[n]
        if self.queued:
            self.flush()
        if k == "getter":
            self.op(["get2", x, y], self.call("take", [self.R(y)], x))
            self.bind(x, self.slots[self.slots[n][0]][0])
        elif k in ("ok", "err"):
            self.op(["get", x, y, 1], self.call("value", [self.R(y)], x))
            self.bind(x, self.slots[n][0])
        elif self.slots[n]:
            j = self.r.randrange(len(self.slots[n]))
            self.op(["get", x, y, j + 1], self.call(READ[k], [self.R(y), ["i", j]], x))
            self.bind(x, self.slots[n][j])

    def append(self):
        c = self.regs("array", "set")
        if not c:
            return
        x, y = self.r.choice(c), self.any(.1)
        n = self.n(x)
        if self.queued:
            self.flush()
        if self.kind[n] == "set":
            v = self.n(y)
            if self.r.random() < .3:
                self.op(["remove", x, y], self.call("remove", [self.R(x), self.R(y)]))
                self.slots[n] = [z for z in self.slots[n] if z != v]
            elif v not in self.slots[n]:
                self.op(["append", x, y], self.call("insert", [self.R(x), self.R(y)]))
                self.slots[n].append(v)
            return
        self.op(["append", x, y], self.call("push", [self.R(x), self.R(y)]) if self.r.random() < .6 else ["api", "v", "array_push", [["h", x], ["h", y]], ""])
        self.slots[n].append(self.n(y))

    def shrink(self):
        c = self.regs("array", "map", "set", "keym")
        if not c:
            return
        x = self.r.choice(c)
        n = self.n(x)
        if self.queued:
            self.flush()
        if self.kind[n] == "array" and self.slots[n] and self.r.random() < .6:
            self.op(["pop", x], ["api", "v", "array_pop", [["h", x]], ""])
            self.slots[n].pop()
            return
        self.op(["clear", x], self.call("clear", [self.R(x)]) if self.kind[n] != "array" or self.r.random() < .5 else ["api", "v", "array_clear", [["h", x]], ""])
        self.slots[n] = []

    def roots(self):
        r = self.r
        p = r.random()
        x = self.any(.1)
        if p < .2:
            y = r.choice(self.free_names)
            self.op(["copy", y, x], ["set", "v", y, self.R(x)])
            self.bind(y, self.n(x))
        elif p < .4:
            j = r.randrange(3)
            if self.queued:
                self.flush()
            self.op(["copy", "g%d" % j, x], self.call("gset", [["i", j], self.R(x)]))
            self.bind("g%d" % j, self.n(x))
        elif p < .5:
            j = r.randrange(3)
            if self.queued:
                self.flush()
            self.op(["copy", x, "g%d" % j], self.call("gget", [["i", j]], x))
            self.bind(x, self.n("g%d" % j))
        elif p < .53 and self.modules < 2 and self.n(x):
            self.modules += 1
            m = "k%d" % self.modules
            self.op(["copy", m, x], ["module", "v", m, [["member", x]]])
            self.bind(m, self.n(x))
        else:
            self.op(["drop", x], ["drop", "v", x])
            self.bind(x, 0)

    def gc(self):
        self.op(["gc"], ["gc", "v"])

    def burst(self):
        n, size = self.r.choice([3, 10, 40]), self.r.choice([8, 64, 700, 3000, 18000])
        t0 = self.tag + 1
        self.tag += n
        cm = []
        for k in range(n):
            cm += [["set", "v", "tmp", ["n", str(t0 + k), size]]]
        self.op(["burst", t0, n, size], *cm, ["drop", "v", "tmp"])
        for k in range(n):
            self.node("native")

    def churning(self):
        if not self.churn:
            return
        k = self.r.choice(list(CHURN))
        if self.queued:
            self.flush()
        self.op(["churn", k], self.call("churn_" + k, [["i", CHURN[k]]]))

    def build(self, size):
        r = self.r
        acts = [(self.native, 8), (self.new, 14), (self.pair, 3), (self.cowait, 3), (self.freetoken, 1.5), (self.enqueue, 2.5), (self.iter, 1.5), (self.write, 12), (self.write2, 3), (self.read, 5),
                (self.append, 6), (self.shrink, 3), (self.roots, 12), (self.gc, 6), (self.burst, 1), (self.churning, .7)]
        fs, ws = zip(*acts)
        while len(self.ops) < size:
            if r.random() < .08 and self.queued:
                self.flush()
            r.choices(fs, ws)[0]()
        if r.random() < .5:
            for x in list(self.free_names):
                self.op(["drop", x], ["drop", "v", x])
                self.bind(x, 0)
            if r.random() < .5:
                for j in range(3):
                    if self.queued:
                        self.flush()
                    self.op(["drop", "g%d" % j], self.call("gset", [["i", j], ["null"]]))
        self.gc()
        self.op(["free"], ["free", "v"] + (["tokens"] if self.tokens else []))
        return self


def commands(cmds, vm, pre=()):
    out = list(pre) + [["vm", "v", vm]] + PRELUDE + [["mark", "start"]]
    for k, c in enumerate(cmds):
        out += c + [["mark", str(k)]]
    return out


def observe(log, n):
    """(finalizers, result) of every operation"""
    if ["mark", "start"] not in log:
        return [], []
    fins, res, cur, ok = [], [], [], "ok"
    for e in log[log.index(["mark", "start"]) + 1:]:
        if e[0] == "mark":
            fins.append(cur)
            res.append(ok)
            cur, ok = [], "ok"
        elif e[0] == "fin":
            cur.append([int(e[1]) if e[1].isdigit() else -1, int(e[2])])
        elif e[0] == "call" and (e[2] != "OK" or e[3][0] != "ok"):
            ok = "ALLOC" if e[2] == "ALLOC" else "bad " + str(e)[:150]
        elif e[0] in ("set", "start", "native", "module", "misaligned", "tokfree", "run") and e[-1] != "OK":
            ok = "ALLOC" if e[-1] == "ALLOC" else "bad " + str(e)[:150]
        elif e[0] == "api" and e[2] not in ("OK", "-"):
            ok = "ALLOC" if e[2] == "ALLOC" else "bad " + str(e)[:150]
    return fins[:n], res[:n]
