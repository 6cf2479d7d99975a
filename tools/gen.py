"""Random well-formed programs in the language of TiroCore (see lang.py), with weights per profile."""
import random
from lang import *

STR = ["", "a", "b", "ab", "abc", "xyz", "foo", "q r"]
SYMS = ["red", "green", "x"]
FIELDS_ = ["fa", "fb", "fc"]
NAMES = ["a", "b", "c", "d", "e", "u", "v", "w", "x", "y", "z"]

BASE = dict(wrap=0.18, ill=0.03, depth=3, stmts=5, defer=0.05, panic=0.02, catch=0.04, closure=0.10, loop=0.12, chain=0.05,
            sc=0.10, cont=0.12, asg=0.16, interp=0.04, const=0.10, ifs=0.12, ret=0.03, fdecl=0.05, dead=0.03, dispatch=0.0,
            tasg=0.05, funcs=3, strings=0.03, size=1.0)


def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


class VarInfo:
    __slots__ = ("name", "kind", "const", "loopvar")

    def __init__(self, name, kind, const=False, loopvar=False):
        self.name, self.kind, self.const, self.loopvar = name, kind, const, loopvar


class Gen:
    def __init__(self, rng, prof=None):
        self.r = rng
        self.p = prof or BASE
        self.scopes = []            # lists of VarInfo, innermost last
        self.funcs = []             # module level functions callable: (name, arity)
        self.fdepth = 0
        self.loop = 0
        self.indefer = 0
        self.counter = 0
        self.budget = 0
        self.names = set()

    # helpers
    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def weighted(self, opts):
        opts = [(f, w) for f, w in opts if w > 0]
        tot = sum(w for _, w in opts)
        x = self.r.random() * tot
        for f, w in opts:
            x -= w
            if x <= 0:
                return f
        return opts[-1][0]

    def tag(self):
        self.counter += 1
        return self.counter

    def visible(self):
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name not in seen:
                    seen.add(v.name)
                    out.append(v)
        return out

    def vars(self, kind=None, mutable=False):
        return [v for v in self.visible() if (kind is None or v.kind == kind) and not (mutable and v.const)]

    def fresh(self):
        """A name not yet declared in the innermost scope (may shadow outer ones)."""
        self.counter += 1
        return "%s%d" % (self.pick(NAMES), self.counter)

    def declare(self, name, kind, const=False, loopvar=False):
        self.scopes[-1].append(VarInfo(name, kind, const, loopvar))

    # expressions -------------------------------------------------------------
    def t(self, e):
        return Call(Var("t"), Int(self.tag()), e)

    def expr(self, kind, d):
        e = self.expr_(kind, d)
        if self.chance(self.p["wrap"]):
            return self.t(e)
        return e

    def anykind(self):
        return self.weighted([("i", 5), ("b", 2), ("s", 2), ("n", 1), ("arr", 1), ("tup", 1), ("map", .6), ("set", .5), ("rec", .5), ("y", .5), ("fl", .4), ("fn", .4)])

    def expr_(self, kind, d):
        p = self.p
        if kind == "any":
            kind = self.anykind()
        if self.chance(p["ill"]):
            kind = self.anykind()
        vs = self.vars(kind)
        if d <= 0:
            if vs and self.chance(0.7):
                return Var(self.pick(vs).name)
            return self.literal(kind, 0)
        generic = [
            (lambda: Var(self.pick(vs).name) if vs else self.literal(kind, d), 3),
            (lambda: self.literal(kind, d), 2),
            (lambda: If(self.expr("b", d - 1), self.vblock(kind, d - 1), self.vblock(kind, d - 1)), p["ifs"] * 4),
            (lambda: self.vblock(kind, d - 1), p["ifs"] * 2),
            (lambda: Coal(self.nullable(kind, d - 1), self.expr(kind, d - 1)), p["sc"] * 2),
            (lambda: self.assign(kind, d), p["asg"] * 2),
            (lambda: self.call(kind, d), 0.6),
            (lambda: Tf(Tup(self.expr("any", d - 1), self.expr(kind, d - 1)), 1), 0.2),
            (lambda: Idx(Arr(self.expr(kind, d - 1), self.expr("any", d - 1)), Int(0)), 0.2),
            (lambda: Idx(MapL(Str("k"), self.expr(kind, d - 1)), Str("k")), 0.2),
            (lambda: Mem(Rec(fa=self.expr("any", d - 1), fb=self.expr(kind, d - 1)), "fb"), 0.2),
            (lambda: self.iife(kind, d), p["closure"]),
        ]
        f = self.weighted(generic + self.special(kind, d))
        return f()

    def special(self, kind, d):
        p = self.p
        E = lambda k: self.expr(k, d - 1)
        if kind == "i":
            return [
                (lambda: Bin(self.pick(["+", "-", "+", "-", "*"]), E("i"), E("i")), 4),
                (lambda: Bin("%", E("i"), Int(self.r.randint(1, 7))), 1),
                (lambda: Bin(self.pick(["/", "%"]), E("i"), E("i")), 0.5),
                (lambda: Bin("**", E("i"), Int(self.r.randint(0, 3))), 0.2),
                (lambda: Un(self.pick(["-", "+", "~"]), E("i")), 0.5),
                (lambda: Bin(self.pick(["&", "|", "^"]), E("i"), E("i")), 0.5),
                (lambda: Bin(self.pick(["<<", ">>"]), E("i"), Int(self.r.randint(0, 4)) if self.chance(.9) else E("i")), 0.3),
                (lambda: MCall(self.expr(self.pick(["arr", "map", "set", "tup", "s"]), d - 1), "size"), 0.7),
                (lambda: Idx(self.expr("arr", d - 1), self.expr("i", 0)), p["cont"]),
            ]
        if kind == "b":
            return [
                (lambda: Bin(self.pick(["<", "<=", ">", ">="]), E("i"), E("i")), 3),
                (lambda: Bin(self.pick(["==", "!="]), E("any"), E("any")), 2),
                (lambda: Un("!", E("b")), 1),
                (lambda: And(E("b"), E("b")), p["sc"] * 15),
                (lambda: Or(E("b"), E("b")), p["sc"] * 15),
                (lambda: MCall(E(self.pick(["map", "set"])), "contains", E("any")), p["cont"] * 3),
            ]
        if kind == "s":
            return [
                (lambda: Interp(*[x for _ in range(self.r.randint(1, 3)) for x in (Str(self.pick(STR[1:])), self.expr(self.pick(["i", "s", "b", "y"]), d - 1))]), p["interp"] * 30),
            ]
        if kind == "any":
            return []
        if kind == "n":
            ch = []
            for _ in range(1):
                ch.append((lambda: self.optional(d), p["chain"] * 40))
            return ch
        return []

    def literal(self, kind, d):
        E = lambda k="any": self.expr(k, d - 1)
        r = self.r
        n = r.randint(0, 3)
        if kind == "i":
            return Int(r.choice([0, 1, 2, 3, 4, 5, 7, 10, 100])) if r.random() < 0.9 else Int(-r.randint(1, 9))
        if kind == "b":
            return Bool(r.random() < 0.5)
        if kind == "s":
            return Str(self.pick(STR))
        if kind == "n":
            return Null()
        if kind == "y":
            return Sym(self.pick(SYMS))
        if kind == "fl":
            return Flt(r.choice([0, 512, 1024, 2048, 2560, 3072]))
        if kind == "arr":
            return Arr(*[E(r.choice(["i", "i", "any"])) for _ in range(n)])
        if kind == "tup":
            return Tup(*[E() for _ in range(max(1, n))])
        if kind == "set":
            return SetL(*[E(r.choice(["i", "i", "s", "y"])) for _ in range(n)])
        if kind == "map":
            return MapL(*[x for _ in range(n) for x in (E(r.choice(["i", "s", "y"])), E())])
        if kind == "rec":
            ks = FIELDS_[:max(1, n)]
            return Rec(**{k: E() for k in ks})
        if kind == "fn":
            if d <= 0 and self.funcs and r.random() < 0.5:
                return Var(self.pick(self.funcs)[0])
            return self.function(r.randint(0, 2), d - 1)
        raise AssertionError(kind)

    def nullable(self, kind, d):
        return self.weighted([(lambda: self.expr("n", d), 1), (lambda: self.expr(kind, d), 1), (lambda: self.optional(d), self.p["chain"] * 20)])()

    def optional(self, d):
        """A path with optional elements."""
        b = self.weighted([(lambda: Null(), 1), (lambda: self.t(Null()), 2), (lambda: self.pathbase(d), 3)])()
        for _ in range(self.r.randint(1, 3)):
            o = self.chance(0.6)
            b = self.weighted([
                (lambda: Mem(b, self.pick(FIELDS_), o), 2),
                (lambda: Idx(b, self.expr(self.pick(["i", "s"]), d - 1), o), 2),
                (lambda: Tf(b, self.r.randint(0, 2), o), 1),
                (lambda: MCall(b, self.pick(["size", "contains", "append", "fa"]), *[self.expr("any", d - 1) for _ in range(self.r.randint(0, 1))], opt=self.r.randint(0, 3)), 2),
                (lambda: Call(b, *[self.expr("any", d - 1) for _ in range(self.r.randint(0, 2))], opt=o) if b.o != "mem" else b, 1)])()
        return chain(b)

    def pathbase(self, d):
        return self.t(self.expr(self.pick(["rec", "arr", "map", "tup", "fn", "n"]), d - 1))

    def vblock(self, kind, d):
        """A block with a value."""
        self.scopes.append([])
        st = []
        while self.chance(0.3) and len(st) < 2:
            st.append(self.stmt(d - 1))
        if self.p["ret"] and self.chance(self.p["ret"]):
            st.append(self.jump(d))
        else:
            st.append(self.expr(kind, d - 1))
            if st[-1].o == "blk" or (st[-1].o == "if" and len(st[-1].c) < 3):
                st[-1] = self.t(st[-1])
        self.scopes.pop()
        return Blk(*st)

    def jump(self, d):
        opts = [(lambda: Return(self.expr("any", d - 1)), 1)]
        if self.indefer or not self.fdepth:
            return self.t(Null())
        if self.loop:
            opts += [(Break, 1), (Continue, 1)]
        return self.weighted(opts)()

    def place(self, kind, d):
        """An assignable expression."""
        vs = self.vars(kind, mutable=True)
        vs = [v for v in vs if not v.loopvar]
        opts = []
        if vs:
            opts.append((lambda: Var(self.pick(vs).name), 3))
        arrs, recs, maps, tups = self.vars("arr"), self.vars("rec"), self.vars("map"), self.vars("tup")
        w = self.p["cont"] * 5
        ob = lambda xs: self.t(Var(self.pick(xs).name)) if self.chance(self.p["wrap"]) else Var(self.pick(xs).name)
        if arrs: opts.append((lambda: Idx(ob(arrs), self.expr("i", d - 1) if self.chance(.3) else Int(self.r.randint(0, 2))), w))
        if maps: opts.append((lambda: Idx(ob(maps), self.expr(self.pick(["i", "s"]), d - 1)), w))
        if recs: opts.append((lambda: Mem(ob(recs), self.pick(FIELDS_)), w * .7))
        if tups: opts.append((lambda: Tf(ob(tups), self.r.randint(0, 1)), w * .7))
        if not opts:
            return None
        return self.weighted(opts)()

    def assign(self, kind, d):
        p = self.place(kind, d)
        if p is None:
            return self.expr(kind, d - 1)
        if kind == "i" and self.chance(0.5):
            return CAsg(self.pick(["+", "-", "+", "*", "%", "/", "**"]), p, self.expr("i", d - 1))
        return Asg(p, self.expr(kind, d - 1))

    def call(self, kind, d):
        fs = [f for f in self.funcs]
        loc = self.vars("fn")
        if loc and self.chance(0.6):
            return Call(Var(self.pick(loc).name), *[self.expr("any", d - 1) for _ in range(self.r.randint(0, 2))])
        if not fs:
            return self.expr(kind, d - 1)
        n, ar = self.pick(fs)
        if self.chance(self.p["ill"]):
            ar = max(0, ar + self.pick([-1, 1]))
        return Call(Var(n), *[self.expr(self.pick(["i", "any"]), d - 1) for _ in range(ar)])

    def iife(self, kind, d):
        return Call(self.function(0, d - 1, kind))

    def function(self, arity, d, kind="any", body=None, params=None):
        params = params or ["p%d" % self.tag() for _ in range(arity)]
        save = self.loop, self.indefer
        self.loop = self.indefer = 0
        self.fdepth += 1
        self.scopes.append([VarInfo(n, self.pick(["i", "i", "n"])) for n in params])
        expr = self.chance(0.3) and body is None
        if expr:
            b = self.expr(kind, d)
        else:
            self.scopes.append([])
            b = self.block(d, body)
            self.scopes.pop()
        self.scopes.pop()
        self.fdepth -= 1
        self.loop, self.indefer = save
        return Fn(params, b, expr)

    # statements ----------------------------------------------------------------
    def block(self, d, n=None):
        self.scopes.append([])
        n = n if n is not None else self.r.randint(1, max(1, self.p["stmts"] - 1))
        st = []
        outer = [v for v in self.visible() if not v.loopvar and v.kind in ("i", "b", "s", "n", "fl")]
        if outer and self.chance(0.12):          # shadow a variable of an outer scope
            v = self.pick(outer)
            k = self.pick(["i", "b", "s", "n"])
            st.append(Decl(v.name, self.literal(k, 0)))
            self.declare(v.name, k)
        st += [self.stmt(d) for _ in range(n)]
        self.scopes.pop()
        return Blk(*st)

    def stmt(self, d):
        p = self.p
        d = min(d, p["depth"])
        simple = [
            (lambda: self.declare_stmt(d), 3),
            (lambda: self.t(self.expr("any", d)), 2.5),
            (lambda: self.assign(self.pick(["i", "i", "b", "s", "any"]), d), p["asg"] * 12),
            (lambda: self.mutate(d), p["cont"] * 8),
            (lambda: self.tassign(d), p["tasg"] * 8),
            (lambda: self.expr("any", d), 0.4),
            (lambda: Assert(Bin("==", Int(1), Int(1)) if not self.chance(p["panic"] * 4) else self.expr("b", d - 1)), 0.2),
            (lambda: self.panic(d), p["panic"] * 4),
            (lambda: self.catch(d), p["catch"] * 10),
            (lambda: self.dispatch(), p["dispatch"] * 10),
            (lambda: self.strings(d), p["strings"] * 10),
        ]
        if d <= 0:
            return self.weighted(simple)()
        return self.weighted(simple + [
            (lambda: self.ifstmt(d), p["ifs"] * 8),
            (lambda: self.loopstmt(d), p["loop"] * 8),
            (lambda: self.block(d - 1), 0.3),
            (lambda: self.deferstmt(d), p["defer"] * 10 if not self.indefer else 0),
            (lambda: self.fdecl(d), p["fdecl"] * 10),
            (lambda: self.jumpstmt(d), p["ret"] * 10),
        ])()

    def declare_stmt(self, d):
        kind = self.pick(["i", "i", "i", "b", "s", "arr", "map", "tup", "rec", "set", "fn", "n", "any"])
        if kind == "any":
            kind = self.anykind()
        if self.chance(self.p["tasg"]):
            n = self.r.randint(1, 3)
            e = Tup(*[self.expr("i", d - 1) for _ in range(n if not self.chance(self.p["ill"]) else max(1, n - 1))])
            const = self.chance(0.3)
            names = []
            for _ in range(n):
                f = self.fresh()
                while f in names:
                    f = self.fresh()
                names.append(f)
            for x in names:
                self.declare(x, "i", const)
            return DeclT(names, e, const)
        e = self.expr(kind, d)
        const = self.chance(0.3)
        name = self.fresh()
        self.declare(name, kind, const)
        return Decl(name, e, const)

    def mutate(self, d):
        E = lambda k="any": self.expr(k, d - 1)
        k = self.pick(["arr", "arr", "map", "set", "map"])
        vs = self.vars(k)
        if not vs:
            return self.t(self.expr(k, d))
        v = Var(self.pick(vs).name)
        if k == "arr":
            return self.weighted([(lambda: MCall(v, "append", E()), 3), (lambda: MCall(v, "clear"), .4), (lambda: self.t(v), 1)])()
        if k == "map":
            return self.weighted([(lambda: Asg(Idx(v, E(self.pick(["i", "s", "y"]))), E()), 3), (lambda: MCall(v, "remove", E(self.pick(["i", "s"]))), 1.5), (lambda: MCall(v, "clear"), .2),
                                  (lambda: self.t(Idx(v, E(self.pick(["i", "s"])))), 1)])()
        return self.weighted([(lambda: self.t(MCall(v, "insert", E(self.pick(["i", "s"])))), 3), (lambda: MCall(v, "remove", E(self.pick(["i", "s"]))), 1.5), (lambda: MCall(v, "clear"), .2)])()

    def tassign(self, d):
        ts = [x for x in (self.place("i", d - 1) for _ in range(self.r.randint(2, 3))) if x]
        if not ts:
            return self.t(Null())
        n = len(ts) if not self.chance(self.p["ill"]) else len(ts) - 1
        vs = self.vars("i")
        rhs = Tup(*[Var(self.pick(vs).name) if vs and self.chance(0.6) else self.expr("i", d - 1) for _ in range(max(1, n))])
        return TAsg(ts, rhs)

    def panic(self, d):
        c = self.r.random()
        if c > .3 or d < 1:
            return MCall(Var("std"), "panic", Str("p%d" % self.tag()))
        if c > .12:       # again, the panic that was caught
            return MCall(Var("std"), "panic", MCall(self.catch(d - 1) if self.r.random() < .6 else MCall(Var("std"), "catch_panic", Fn([], Blk(MCall(Var("std"), "panic", Str("p%d" % self.tag()))))), "error"))
        if c > .01:
            return MCall(Var("std"), "panic", self.expr("i", d - 1) if c > .06 else self.pick([Null(), Bool(True), Int(self.tag()), Sym("s%d" % self.tag())]), *([Str("more")] if c < .03 else []))
        return MCall(Var("std"), "panic")

    def catch(self, d):
        f = self.function(0, d - 1, body=self.r.randint(1, 3)) if self.r.random() < .94 else self.function(1, d - 1, body=1) if self.r.random() < .5 else self.expr("i", d - 1)
        return self.t(MCall(Var("std"), "catch_panic", f, *[self.expr("i", d - 1) for _ in range(self.r.choice([1, 2]) if self.r.random() < .08 else 0)]))

    def dispatch(self):
        return MCall(Var("std"), "dispatch")

    def strings(self, d):
        b = self.expr("s", d - 1)
        I = lambda: Int(self.r.randint(0, 4))
        return self.t(self.weighted([
            (lambda: MCall(b, "slice_first", I()), 1), (lambda: MCall(b, "slice_last", I()), 1), (lambda: MCall(b, "slice", I(), I()), 1),
            (lambda: MCall(b, "contains", Str(self.pick(STR))), 1)])()) if False else self.t(MCall(b, "contains", Str(self.pick(STR))))

    def ifstmt(self, d):
        c = self.expr("b", d - 1)
        a = self.block(d - 1)
        if self.chance(0.3):
            return If(c, a)
        if self.chance(0.25):
            return If(c, a, self.ifstmt(d - 1))
        return If(c, a, self.block(d - 1))

    def loopstmt(self, d):
        r = self.r
        n = r.randint(0, 4)
        kind = self.weighted([("for", 3), ("while", 2), ("each", 3)])
        if kind == "for":
            self.scopes.append([])
            i = self.fresh()
            self.declare(i, "i", loopvar=True)
            self.loop += 1
            b = self.block(d - 1)
            self.loop -= 1
            self.scopes.pop()
            cond = Bin("<", Var(i), Int(n))
            if self.chance(.2):
                cond = self.t(cond)
            step = CAsg("+", Var(i), Int(1))
            if self.chance(.1) and b.c:
                # no condition: leave with break
                b.c.insert(0, If(Bin(">=", Var(i), Int(n)), Blk(Break())))
                return For(Decl(i, Int(0)), None, step, b)
            return For(Decl(i, Int(0)), cond, step, b)
        if kind == "while":
            w = "w%d" % self.tag()
            self.scopes.append([])
            self.declare(w, "i", loopvar=True)
            self.loop += 1
            b = self.block(d - 1)
            self.loop -= 1
            self.scopes.pop()
            b.c.insert(0, CAsg("+", Var(w), Int(1)))
            return Blk(Decl(w, Int(0)), While(Bin("<", Var(w), Int(n)), b))
        cont = self.expr(self.pick(["arr", "arr", "map", "set", "tup", "s"]), d - 1)
        if cont.o == "var":
            cont = Tf(Tup(cont,), 0) if False else cont
        self.scopes.append([])
        isvar = cont.o == "var"
        tupb = cont.o == "map" and self.chance(0.8)
        if tupb:
            names = ["k%d" % self.tag(), "v%d" % self.tag()]
        else:
            names = [self.fresh()]
        for x in names:
            self.declare(x, "any" if tupb else "i", True)
        self.loop += 1
        self.frozen = isvar
        b = self.block(d - 1)
        self.loop -= 1
        self.scopes.pop()
        if isvar:
            # mutation of the container during iteration is bounded by leaving after a few rounds
            w = "w%d" % self.tag()
            b.c.insert(0, If(Bin(">", CAsg("+", Var(w), Int(1)), Int(6)), Blk(Break())))
            return Blk(Decl(w, Int(0)), Each(names, cont, b, tupb))
        return Each(names, cont, b, tupb)

    def deferstmt(self, d):
        self.indefer += 1
        save = self.loop
        self.loop = 0
        e = self.weighted([
            (lambda: self.t(self.expr("any", d - 1)), 4),
            (lambda: self.assign("i", d - 1), 1),
            (lambda: self.block(d - 1, 2), 1),
            (lambda: self.panic(d), self.p["panic"] * 6)])()
        self.indefer -= 1
        self.loop = save
        return Defer(e)

    def fdecl(self, d):
        name = "fn%d" % self.tag()
        ar = self.r.randint(0, 2)
        f = self.function(ar, d - 1)
        self.declare(name, "fn", True)
        return FDecl(name, f)

    def jumpstmt(self, d):
        if self.indefer:
            return self.t(Null())
        j = self.jump(d)
        return If(self.expr("b", d - 1), Blk(j)) if self.chance(0.8) else j

    # modules -------------------------------------------------------------------
    def module(self):
        """A module with imports std, h (native: t), functions and an exported main(x, y)."""
        items = [Decl("t", Mem(Var("h"), "t"), True)]
        self.scopes = [[]]
        self.budget = 0
        for i in range(self.r.randint(0, 2)):
            k = self.pick(["i", "arr", "s", "map"])
            n = "g%d" % i
            items.append(Decl(n, self.expr(k, 1)))
            self.declare(n, k)
        for i in range(self.r.randint(0, self.p["funcs"])):
            ar = self.r.randint(0, 3)
            n = "f%d" % i
            items.append(FDecl(n, self.function(ar, self.p["depth"], body=self.r.randint(1, self.p["stmts"]))))
            self.funcs.append((n, ar))
        if self.chance(0.25):
            items.append(FDecl("rec0", Fn(["n"], Blk(If(Bin("<=", Var("n"), Int(0)), Blk(Return(Int(0)))), self.t(Var("n")),
                                          Return(Bin("+", Var("n"), Call(Var("rec0"), Bin("-", Var("n"), Int(1)))))))))
            self.scopes[0].append(VarInfo("rec0_", "zz"))
        body = self.function(2, self.p["depth"], params=["x", "y"], body=int(self.p["stmts"] * 1.6 * self.p["size"]) + 1)
        items.append(FDecl("main", body))
        return Module(items, ["main"], [("std", "std"), ("h", "h")])


PRE = [["vm", "v"], ["std", "v"], ["native", "v", "t", {"name": "t", "flavour": "trace"}], ["module", "v", "h", [["t", "t"]]]]


def program(id, rng, prof, calls=3):
    g = Gen(rng, prof)
    m = g.module()
    args = [[["i", rng.randint(-2, 5)], rng.choice([["i", rng.randint(0, 9)], ["null"], ["s", "ab"], ["b", True]])] for _ in range(calls)]
    cmds = PRE + [["load", "v", "m", ""], ["export", "v", "m", "main", "main"]] + [["call", "v", "main", ["t", a]] for a in args]
    return Program(id, {"m": m}, cmds)


def dataflow(id, rng, calls=2):
    """Few or very many plain variables with swaps, rotations, copies and jumps: nothing but data flow through control flow."""
    n = rng.choice([2, 3, 3, 4, 4, 5, 6, 8, 8, rng.randint(60, 90)])
    names = ["a%d" % i for i in range(n)]
    counter = [0]
    few = names if n < 20 else None

    def some(k=1):
        return rng.sample(names, min(k, n))

    def v():
        return Var(rng.choice(names))

    def val(d=1):
        c = rng.random()
        if c < 0.45 or d == 0:
            return v() if rng.random() < 0.8 else Int(rng.randint(0, 9))
        if c < 0.85:
            return Bin("%", Bin(rng.choice(["+", "*", "-"]), val(d - 1), val(d - 1)), Int(97))
        if c < 0.93:
            return Blk(Asg(v(), val(0)))  if rng.random() < 0.3 else Asg(v(), val(0))
        return If(cond(), Blk(*([assign()] if rng.random() < 0.5 else []), val(0)), Blk(val(0)))

    def cond():
        c = rng.random()
        if c < 0.6:
            return Bin(rng.choice(["<", ">", "==", "!="]), v(), v() if rng.random() < .6 else Int(rng.randint(0, 50)))
        if c < 0.8:
            return Bin("==", Bin("%", v(), Int(rng.randint(2, 3))), Int(0))
        return (And if c < 0.9 else Or)(cond(), cond())

    def assign():
        return Asg(v(), val())

    def rotate():
        k = rng.randint(2, 4)
        xs = some(k)
        if rng.random() < 0.5:
            return [TAsg([Var(x) for x in xs], Tup(*[Var(x) for x in xs[1:] + xs[:1]]))]
        counter[0] += 1
        t = "t%d" % counter[0]
        return [Decl(t, Var(xs[0]), True)] + [Asg(Var(a), Var(b)) for a, b in zip(xs, xs[1:])] + [Asg(Var(xs[-1]), Var(t) if rng.random() < 0.8 else Bin("+", Var(t), Int(1)))]

    def stmts(d, loop, k=None):
        out = []
        for _ in range(k or rng.randint(1, 4)):
            c = rng.random()
            if c < 0.3:
                out += rotate()
            elif c < 0.55 or d == 0:
                out.append(assign())
            elif c < 0.75:
                out.append(If(cond(), Blk(*stmts(d - 1, loop)), *([Blk(*stmts(d - 1, loop))] if rng.random() < 0.6 else [])))
            elif c < 0.95:
                counter[0] += 1
                i = "i%d" % counter[0]
                if rng.random() < 0.7:
                    out.append(For(Decl(i, Int(0)), Bin("<", Var(i), Int(rng.randint(1, 3))), CAsg("+", Var(i), Int(1)), Blk(*stmts(d - 1, True))))
                else:
                    out += [Decl(i, Int(0)), While(Bin("<", CAsg("+", Var(i), Int(1)), Int(rng.randint(2, 4))), Blk(*stmts(d - 1, True)))]
            elif loop:
                out.append(If(cond(), Blk(Break() if rng.random() < 0.5 else Continue())))
            else:
                out.append(Call(Var("t"), Int(counter[0]), v()))
        return out

    body = [Decl(x, Bin("+", Var("x"), Int(i)) if rng.random() < 0.5 else Int(i)) for i, x in enumerate(names)]
    if n > 20:
        body += rotate() + stmts(3, False, 4) + rotate()
    else:
        body += stmts(4, False, rng.randint(2, 5))
    if rng.random() < 0.25:      # observed by a handler, too
        body.insert(n + 1, Defer(Call(Var("t"), Int(0), v(), v())))
    body.append(Return(Tup(*[Var(x) for x in names])))
    items = [Decl("t", Mem(Var("h"), "t"), True), FDecl("main", Fn(["x"], Blk(*body)))]
    cmds = PRE + [["load", "v", "m", ""], ["export", "v", "m", "main", "main"]] + [["call", "v", "main", ["t", [["i", rng.randint(0, 9)]]]] for _ in range(calls)]
    return Program(id, {"m": Module(items, ["main"], [("std", "std"), ("h", "h")])}, cmds)
