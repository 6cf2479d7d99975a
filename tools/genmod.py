"""Random module worlds (C14): import graphs, initialisers, load orders and orders of use."""
from lang import *
from gensess import std, h, t

W = dict(cyc=0.12, missing=0.1, panics=0.12, flaky=0.12, waits=0.06, dups=0.08, nested=0.25, bad=0.03, launch=0.12)


class Mods:
    def __init__(self, rng, w):
        self.r, self.w = rng, dict(W, **w)
        self.n = 0

    def chance(self, p): return self.r.random() < self.w[p]

    def lab(self, m):
        self.n += 1
        return "%s.%d" % (m, self.n)

    def use(self, m, own):
        """An expression over what module m may see."""
        r = self.r
        c = r.random()
        if own and c < 0.2:
            return Var(r.choice(own))
        if self.imp[m] and c < 0.75:
            alias, x = r.choice(self.imp[m])
            if x == "nv":
                return Mem(Var(alias), r.choice(["n", "n", "s", "none"]))
            if x == "st":
                return MCall(Var(alias), "tick")
            if x not in self.mem:
                return Str("?")
            vs, fs = self.mem[x]
            if r.random() < .6 and vs:
                return Mem(Var(alias), r.choice(vs))
            if fs:
                return MCall(Var(alias), r.choice(fs), *([] if r.random() < .9 else [Int(1)]))
            return Mem(Var(alias), "nope")
        return r.choice([Int(r.randint(0, 9)), Str(self.lab(m)), Null(), Arr(Int(1)), Tup(Str("t"), Int(2))])

    def init(self, m, own):
        r = self.r
        e = t(Str(self.lab(m)), self.use(m, own))
        if self.chance("panics"):
            return Blk(e, If(Bin("==", self.use(m, own), self.use(m, own)) if r.random() < .3 else Bool(True), Blk(std("panic", Str(self.lab(m))))), Int(1))
        if any(x == "st" for _, x in self.imp[m]) and self.chance("flaky"):
            a = next(a for a, x in self.imp[m] if x == "st")
            return Blk(If(Bin("<", MCall(Var(a), "tick"), Int(r.randint(1, 4))), Blk(std("panic", Str(self.lab(m))))), e, Str(self.lab(m)))
        if self.chance("waits"):
            return r.choice([h("wait", Str("k0")), std("dispatch")])
        if r.random() < self.w["nested"] * .3:
            return h(r.choice(self.nested))
        if self.chance("launch"):
            return Blk(std("launch", Fn([], Blk(t(Str(self.lab(m))), std("dispatch"), t(Str(self.lab(m)))))), self.use(m, own))
        return r.choice([e, self.use(m, own), self.use(m, own), Blk(e, self.use(m, own))])

    def program(self, id):
        r = self.r
        k = r.randint(2, 6)
        names = ["m%d" % i for i in range(k)]
        r.shuffle(names)
        self.imp, self.mem = {}, {}
        for i, m in enumerate(names):
            self.mem[m] = (["%sv%d" % (m, j) for j in range(r.choice([0, 1, 1, 2, 3]))], ["%sf%d" % (m, j) for j in range(r.choice([0, 1, 1, 2]))])
        for i, m in enumerate(names):
            deps = [x for x in names[:i] if r.random() < .45]
            if self.chance("cyc"):
                deps.append(r.choice(names))
            if self.chance("missing"):
                deps.append("zz")
            for x in ("st", "nv"):
                if r.random() < .4:
                    deps.append(x)
            deps = list(dict.fromkeys(deps))
            r.shuffle(deps)
            imps = [("std", "std"), ("h", "h")]
            for d in deps:
                imps.insert(r.randint(0, len(imps)), (d if r.random() < .6 else "al_" + d, d))
                if r.random() < .05:
                    imps.append(("again_" + d, d))
            self.imp[m] = []
            self.imp[m] = [x for x in imps if x[1] not in ("std", "h")]
            self.mem[m] += (imps,)
        alls = names + ["st", "nv", "zz", "std", "h"]
        nat = []
        self.nested = []
        for i in range(2):
            cs = []
            for _ in range(r.randint(1, 2)):
                m = r.choice(alls)
                cs.append(["cmd", ["export", "v", m, self.member(m), "x%d" % r.randint(0, 3)]])
            nat.append(("nx%d" % i, dict(name="nx%d" % i, flavour="sync", argc=0, program=cs + [["ret", ["i", i]]])))
            self.nested.append("nx%d" % i)
        mods = {}
        for m in names:
            vs, fs, imps = self.mem[m]
            self.mem_of = m
        self.full = self.mem
        self.mem = {m: (x[0], x[1]) for m, x in self.full.items()}
        for m in names:
            vs, fs, imps = self.full[m]
            items, own = [], []
            order = [("v", v) for v in vs] + [("f", f) for f in fs]
            r.shuffle(order)
            for kind, n in order:
                if kind == "v":
                    c = r.random()
                    if c < 0.1:
                        items.append(Decl(n, None))
                        continue
                    elif c < 0.2:
                        items.append(DeclT([n, n + "b"], Tup(self.init(m, own), self.use(m, own)), r.random() < .8))
                        own.append(n + "b")
                    else:
                        items.append(Decl(n, self.init(m, own), r.random() < .75))
                    own.append(n)
                else:
                    body = [t(Str(self.lab(m)), self.use(m, []))] if r.random() < .5 else []
                    if own and r.random() < .3 and any(i.o == "decl" and n2 in i.s and not i.i for i in items for n2 in [own[0]]):
                        body.append(Asg(Var(own[0]), Tup(Var(own[0]) if r.random() < .3 else Int(0), Str(self.lab(m)))))
                    body.append(Return(self.use(m, [v for v in own if r.random() < .7])))
                    items.append(FDecl(n, Fn([], Blk(*body))))
            const = {n for i in items if i.o != "fdecl" and i.i for n in i.s[:1]}
            pairs = {n: n + "b" for i in items if i.o == "dect" for n in i.s[:1]}
            exp = [n for n in vs + fs if (n in fs or n in const) and r.random() < .9]
            exp += [pairs[n] for n in exp if n in pairs]
            mods[m] = Module(items, exp, imps)
        mods["st"] = Module([Decl("n", Arr(Int(0)), True), Decl("hidden", Int(5)), FDecl("tick", Fn([], Blk(CAsg("+", Idx(Var("n"), Int(0)), Int(1)), Return(Idx(Var("n"), Int(0))))))], ["n", "tick"], [("std", "std")])
        mods["badm"] = Module([FDecl("f", Fn([], Blk(Var("undeclared"))))], [], [], bad=True)
        cmds = [["vm", "v"], ["native", "v", "t", {"name": "t", "flavour": "trace"}],
                ["native", "v", "wait", {"name": "wait", "flavour": "async", "argc": 1, "program": [["tok", ["arg", 0]], ["yield"]]}]]
        cmds += [["native", "v", n, d] for n, d in nat]
        cmds += [["set", "v", "n", ["i", 11]], ["set", "v", "s", ["s", "str"]]]
        loads = [["std", "v"], ["module", "v", "h", [["t", "t"], ["wait", "wait"]] + [[n, n] for n, _ in nat]], ["module", "v", "nv", [["n", "n"], ["s", "s"]]]]
        late = [["load", "v", m, ""] for m in names + ["st"]]
        r.shuffle(late)
        tail = []
        for _ in range(r.randint(4, 16)):
            c = r.random()
            if c < .62:
                m = r.choice(alls if r.random() < .2 else names)
                tail.append(["export", "v", m, self.member(m), "x%d" % r.randint(0, 3)])
            elif c < .8:
                tail.append(["call", "v", "x%d" % r.randint(0, 3), ["NULL"]])
            elif c < .88:
                tail.append(["show", "v", "x%d" % r.randint(0, 3)])
            elif c < .92:
                tail.append(["tokret", "v", "k0", ["i", 3]])
            elif c < .96:
                tail.append(["run", "v"])
            else:
                tail.append(["ready", "v"])
            if self.chance("dups"):
                tail.append(r.choice([["std", "v"], ["load", "v", r.choice(names), ""], ["module", "v", r.choice(names + ["nv"]), [["n", "n"]]], ["load", "v", "st", ""]]))
            if self.chance("bad"):
                tail.append(["load", "v", "badm", ""])
        # some modules are loaded late, or never
        early = [c for c in late if r.random() < .75]
        for c in late:
            if c not in early and r.random() < .8:
                tail.insert(r.randint(0, len(tail)), c)
        early = loads + early
        if r.random() < .3:
            early2 = [c for c in early if r.random() < .9]
            for c in early:
                if c not in early2:
                    tail.insert(r.randint(0, len(tail)), c)
            early = early2
        r.shuffle(early)
        pre = [["set", "v", "x%d" % i, ["i", i]] for i in range(4)]
        end = []
        for m in names:
            if r.random() < .5:
                end.append(["export", "v", m, self.member(m), "x0"])
        return Program(id, mods, cmds + pre + early + tail + end)

    def member(self, m):
        r = self.r
        if m in self.full if hasattr(self, "full") else m in self.mem:
            x = (self.full if hasattr(self, "full") else self.mem)[m]
            ns = x[0] + x[1]
            if ns and r.random() < .9:
                return r.choice(ns)
            return r.choice(["nope", m])
        if m == "st":
            return r.choice(["n", "tick", "hidden"])
        if m == "nv":
            return r.choice(["n", "s", "q"])
        return r.choice(["print", "nope", "t"] if m == "h" else ["nope"])


def program(id, rng, **w):
    return Mods(rng, w).program(id)
