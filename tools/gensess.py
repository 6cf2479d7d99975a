"""Random host sessions: coroutines, native functions, resume tokens, completion callbacks (C04 - C07)."""
from lang import *

STD = Var("std")
H = Var("h")


def std(name, *a): return MCall(STD, name, *a)
def h(name, *a): return MCall(H, name, *a)
def t(*a): return h("t", *a)


WEIGHTS = dict(dispatch=3, wait=3, log=4, launch=2, tok=1.5, resume=1.5, valid=0.7, catch=1, defer=0.8, panic=0.4, call=1, native=1, loop=0.6, cur=0.4, ret=0.3, ifs=0.5,
               natives=2, resumables=1, callbacks=0.5, cmdops=0.4, wild=0.15, waiters=2, hostlen=18, body=6, badargs=0.15, given=0.15)


class Sess:
    def __init__(self, rng, w):
        self.r, self.w = rng, dict(WEIGHTS, **w)
        self.n = 0
        self.names = []         # token names used by waits
        self.labels = 0
        self.sync, self.async_, self.res = [], [], []

    def panicx(self):
        c = self.r.random()
        return std("panic", Str(self.lab()) if c < .7 else MCall(std("catch_panic", Fn([], Blk(self.effect(1), std("panic", Str(self.lab()))))), "error") if c < .85 else Var("x") if c < .9 else Int(3))

    def lab(self):
        self.labels += 1
        return "s%d" % self.labels

    def chance(self, p): return self.r.random() < p

    # --- scripts ----------------------------------------------------------------------------------
    def simple(self):
        r = self.r
        return r.choice([lambda: Int(r.randint(-3, 9)), lambda: Str(r.choice(["a", "bc", ""])), lambda: Null(), lambda: Var("x"), lambda: Bool(r.random() < .5),
                         lambda: Tup(Int(1), Var("x")), lambda: Sym("q")])()

    def tokname(self):
        n = "k%d" % self.r.randint(0, self.nk - 1)
        if n not in self.names:
            self.names.append(n)
        return n

    def native_call(self, d):
        r = self.r
        ok = [x for x in self.natives if self.level[x[0]] <= self.cur]
        if not ok:
            return t(Str(self.lab()))
        name, argc, flavour = r.choice(ok)
        n = argc if not self.chance(self.w["badargs"]) else r.randint(0, argc + 2)
        args = []
        for i in range(n):
            c = r.random()
            if c < 0.35:
                args.append(Var(r.choice(self.order[:self.cur])) if self.cur and r.random() < .7 else Fn([], Blk(*self.stmts(0, 1), self.simple())))
            elif c < 0.5 and d > 0:
                args.append(self.effect(d - 1))
            else:
                args.append(self.simple())
        return h(name, *args)

    def effect(self, d):
        """An expression with an effect."""
        r, w = self.r, self.w
        kinds = ["log", "wait", "dispatch", "native", "catch", "launch", "resume", "valid", "call", "cur"]
        k = r.choices(kinds, [w[x] for x in kinds])[0]
        if k == "wait":
            return h("wait", Str(self.tokname())) if not self.chance(0.05) else std("yield_coroutine")
        if k == "dispatch":
            return std("dispatch")
        if k == "native" and self.natives:
            return self.native_call(d)
        if k == "catch" and d > 0:
            f = Fn([], Blk(*self.stmts(d - 1, 2), self.effect(d - 1) if r.random() < .6 else std("panic", Str(self.lab()))))
            return std("catch_panic", f, *[t(Str(self.lab())) for _ in range(r.choice([1, 2]) if r.random() < .05 else 0)])
        if k == "launch" and self.cur:
            f = r.choice(self.order[:self.cur])
            nargs = self.arity(f)
            if self.chance(0.06):
                nargs += 1
            return std("launch", Var(f), *[Str(self.lab()) if r.random() < .7 else self.simple() for _ in range(nargs)])
        if k == "resume":
            return MCall(self.token(), "resume") if r.random() < .8 else h("t", Null())
        if k == "valid":
            return MCall(self.token(), "valid")
        if k == "call" and self.cur:
            f = r.choice(self.order[:self.cur])
            return Call(Var(f), *[self.simple() for _ in range(self.arity(f) + (1 if self.chance(0.04) else 0))])
        if k == "cur":
            return Bin("==", std("current_coroutine"), MCall(Idx(Var("toks"), Int(0)), "coroutine"))
        return t(Str(self.lab()), self.simple())

    def token(self):
        """One of the tokens taken so far: an early or a recent one."""
        n = MCall(Var("toks"), "size")
        if self.chance(0.3):
            return Idx(Var("toks"), Bin("-", n, Int(1)))
        return Idx(Var("toks"), Bin("%", Int(self.r.randint(0, 4)), n))

    def arity(self, f): return self.ar[f]
    # scripts only call and launch earlier functions, and natives that only invoke those: no recursion

    def stmts(self, d, n=None):
        r, w = self.r, self.w
        out = []
        kinds = ["log", "tok", "defer", "panic", "loop", "ret", "ifs", "effect", "bind"]
        ws = [w["log"], w["tok"], w["defer"], w["panic"], w["loop"], w["ret"], w["ifs"], 6, 3]
        for _ in range(n if n is not None else r.randint(2, self.w["body"])):
            k = r.choices(kinds, ws)[0]
            if k == "log":
                out.append(t(Str(self.lab())))
            elif k == "tok":
                out.append(MCall(Var("toks"), "append", std("coroutine_token")))
                if self.chance(self.w["given"]):  # a token taken before the coroutine gives way by itself
                    out.append(std("dispatch") if r.random() < .7 else h("wait", Str(self.tokname())))
                    if r.random() < .6:
                        out.append(MCall(Var("toks"), "append", std("coroutine_token")))
                if r.random() < .6:
                    out.append(t(Str(self.lab()), std("yield_coroutine")))
            elif k == "defer":
                out.append(Defer(t(Str(self.lab()), self.simple()) if r.random() < .7 else self.effect(1)))
            elif k == "panic":
                out.append(If(Bin("==", Var("x"), self.simple()), Blk(self.panicx())) if r.random() < .6 else self.panicx())
                if out[-1].o != "if":
                    break
            elif k == "loop" and d > 0:
                i = "i%d" % r.randint(0, 99)
                out.append(For(Decl(i, Int(0)), Bin("<", Var(i), Int(r.randint(1, 3))), CAsg("+", Var(i), Int(1)), Blk(*self.stmts(d - 1, r.randint(1, 2)))))
            elif k == "ifs" and d > 0:
                out.append(If(Bin(r.choice(["==", "!="]), Var("x"), self.simple()), Blk(*self.stmts(d - 1, 2))))
            elif k == "ret":
                out.append(If(Bin("==", self.simple(), self.simple()), Blk(Return(self.simple()))))
            elif k == "bind":
                v = "v%d" % self.labels
                self.labels += 1
                out.append(Decl(v, self.effect(d)))
                out.append(t(Str(self.lab()), Var(v) if r.random() < .8 else self.simple()))
            else:
                e = self.effect(d)
                out.append(e)
        return out

    # --- native programs ----------------------------------------------------------------------------
    def hv(self, argc, depth=1, locals_=0, inv=False):
        r = self.r
        c = r.random()
        if c < 0.35 and argc:
            return ["arg", r.randrange(argc)]
        if c < 0.45:
            return ["closure"]
        if c < 0.55 and locals_:
            return ["local", r.randrange(locals_)]
        if c < 0.65 and inv:
            return ["inv"]
        if c < 0.75 and depth:
            k = r.choice(["t", "a", "ok", "err", "r"])
            if k in "ta":
                return [k, [self.hv(argc, 0, locals_, inv) for _ in range(r.randint(0, 2))]]
            if k == "r":
                return [k, [["p", self.hv(argc, 0, locals_, inv)], ["q", self.hv(argc, 0)]][:r.randint(1, 2)]]
            return [k, self.hv(argc, 0, locals_, inv)]
        return r.choice([["i", r.randint(-5, 50)], ["s", r.choice(["", "txt"])], ["b", True], ["null"]])

    def cmdop(self):
        c = self.hostcmd(inner=True)
        return ["cmd", c]

    def ops(self, flavour, argc, final=True):
        r, out = self.r, []
        for _ in range(r.randint(0, 3)):
            c = r.random()
            if c < 0.35:
                out.append(["log", self.lab(), *[self.hv(argc) for _ in range(r.randint(0, 2))]])
            elif c < 0.5:
                out.append(["args"])
            elif c < 0.5 + self.w["cmdops"] * 0.5:
                out.append(self.cmdop())
            elif self.chance(self.w["wild"]):      # several results: the last one counts
                out.append(r.choice([["ret", self.hv(argc)], ["panic", ["lit", self.lab()]]]))
        if flavour == "async":
            c = r.random()
            tok = r.random() < 0.8
            if tok:
                out.insert(r.randint(0, len(out)), ["tok", ["lit", self.tokname()]])
            if c < 0.55 and tok:
                out.append(["yield"])
                if self.chance(self.w["wild"]):
                    out.append(["log", self.lab()])
                return out
        c = r.random()
        if c < 0.65:
            out.append(["ret", self.hv(argc)])
        elif c < 0.85:
            out.append(["panic", ["lit", self.lab()]])
        return out

    def resprog(self, argc, locals_):
        r = self.r
        n = r.randint(1, 4)
        prog = {}
        lev = 0
        for s in range(n):
            ops = []
            if s and r.random() < .4:       # the result of the inner call, if there was one since the last state
                ops.append(["log", self.lab(), ["inv"]])
            for _ in range(r.randint(0, 2)):
                c = r.random()
                if c < 0.3:
                    ops.append(["log", self.lab(), self.hv(argc, 1, locals_, s > 0)])
                elif c < 0.7 and locals_:
                    ops.append(["setlocal", r.randrange(locals_) if r.random() < .95 else locals_, self.hv(argc, 1, locals_, s > 0)])
                elif self.chance(self.w["cmdops"] * .5):
                    ops.append(self.cmdop())
            nxt = s + 1 if s + 1 < n else (-1 if r.random() < .3 else None)
            c = r.random()
            if nxt is None:
                ops.append(["ret", self.hv(argc, 1, locals_, s > 0)] if c < .8 else ["panic", ["lit", self.lab()]])
            elif c < 0.62:
                f = ["arg", 0] if argc and r.random() < .5 else ["reg", r.choice([x for x in self.callable_regs if x in self.order or x in self.made] or ["nofunc"])]
                if f[0] == "reg":
                    lev = max(lev, self.order.index(f[1]) + 1 if f[1] in self.order else self.level.get(f[1], 0))
                nargs = self.ar.get(f[1], 1) if f[0] == "reg" else r.randint(0, 1)
                a = ["NULL"] if nargs == 0 and r.random() < .5 else ["t", [self.hv(argc, 0, locals_, s > 0) for _ in range(nargs)]]
                if self.chance(0.05):
                    a = ["i", 3]
                ops.append(["invoke", nxt, f, a])
                if ops[-1][3][0] == "i" or f[0] == "arg":     # may be refused: then this state would be entered again
                    ops.insert(len(ops) - 1, ["ret", ["s", "refused"]])
                if self.chance(self.w["wild"]):
                    ops.append(r.choice([["ret", self.hv(argc, 1, locals_)], ["panic", ["lit", self.lab()]]]))
            elif c < 0.85:
                ops.append(["state", nxt])
            else:
                ops.append(["ret", self.hv(argc, 1, locals_, s > 0)] if r.random() < .7 else ["panic", ["lit", self.lab()]])
            prog[str(s)] = ops
        return prog, lev

    # --- host ------------------------------------------------------------------------------------------
    def hostcmd(self, inner=False, callback=False):
        r = self.r
        kinds = [("start", 1.5), ("ready", 1.2), ("status", 1.5), ("tokret", 4), ("tokpanic", 1), ("tokfree", 0.4), ("callback", self.w["callbacks"] * 3), ("coro", .5), ("same", .1)]
        if not inner:
            kinds += [("run", 3), ("call", 1.5), ("drop", .1)]
        else:
            kinds += [("run", 0.4)]
        k = r.choices([x[0] for x in kinds], [x[1] for x in kinds])[0]
        co = r.choice(self.coregs) if r.random() < .97 else r.choice(self.callable_regs)
        if k in ("start", "status"):
            return [k, "v", co]
        if k in ("ready", "run"):
            return [k, "v"]
        if k == "tokret":
            return [k, "v", self.anytok(), self.hv0()]
        if k == "tokpanic":
            return [k, "v", self.anytok(), self.lab()]
        if k == "tokfree":
            return [k, "v", self.anytok()]
        if k == "callback":
            self.cbn += 1
            tag = r.choice(["cb%d", "cb%d", "n%d"]) % self.cbn # n: without userdata
            acts = []
            if not callback and self.chance(.4):
                acts = [self.hostcmd(inner=True, callback=True) for _ in range(r.randint(1, 2))]
            c = r.random()
            cleanup = c < .9
            cb = not (c < .05)
            c = ["callback", "v", co, tag, cleanup, cb, acts]
            return c if inner or r.random() < .85 or not self.w.get("faults", True) else ["fault", 1, c]   # (faults are injected process-wide)
        if k == "coro":
            return self.corocmd(co if co in self.coregs else self.coregs[0])
        if k == "same":
            return [k, "v", r.choice(self.coregs), r.choice(self.coregs)]
        if k == "call":
            f = r.choice(self.callable_regs)
            return ["call", "v", f, self.argsfor(f)]
        if k == "gc":
            return [k, "v"]
        return ["drop", "v", r.choice(self.coregs)]

    def argsfor(self, f):
        r = self.r
        n = self.ar.get(f, 1)
        if self.chance(0.06):
            n += r.choice([-1, 1])
        if n <= 0:
            return ["NULL"] if r.random() < .5 else ["t", []]
        return ["t", [self.hv0() for _ in range(n)]]

    def corocmd(self, reg):
        r = self.r
        f = r.choice(self.callable_regs) if r.random() < .97 else r.choice(["nofunc"])
        a = self.argsfor(f) if r.random() < .95 else r.choice([["i", 3], ["s", "x"], ["a", []], ["a", [self.hv0() for _ in range(max(0, self.ar.get(f, 1)))]]])
        return ["coro", "v", reg, f, a]

    def hv0(self):
        return self.r.choice([["i", self.r.randint(-5, 50)], ["s", self.lab()], ["s", self.lab()], ["null"], ["t", [["i", 1]]], ["err", ["s", "e"]]])

    def anytok(self):
        return self.r.choice(self.names) if self.names and self.r.random() < .97 else "none"

    def session(self, id):
        r, w = self.r, self.w
        self.nk = r.randint(1, 3)
        self.cbn = 0
        self.coregs = ["c%d" % i for i in range(r.randint(2, 5))]
        nf = r.randint(1, 4)
        self.order = ["f%d" % i for i in range(nf)]
        self.ar = {f: r.choice([0, 1, 1, 1, 2]) for f in self.order}
        self.callable_regs = list(self.order)
        # natives first: scripts refer to them by name
        ndefs = []
        self.natives = []
        self.made = []
        self.level = {}
        plan = []
        for i in range(int(r.random() * w["natives"] * 2 + .5)):
            plan.append((r.choice(["sync", "sync", "async", "async"]), "n%d" % i))
        for i in range(int(r.random() * w["resumables"] * 2 + .5)):
            plan.append(("resumable", "r%d" % i))
        for fl, name in plan:
            argc = r.choice([0, 1, 1, 2])
            self.natives.append((name, argc, fl))
            self.level[name] = 0
            self.ar[name] = argc
        if w["resumables"] >= 2 and plan:
            self.callable_regs += [p[1] for p in plan if r.random() < .5]
        self.names = ["k%d" % i for i in range(self.nk)]
        for (name, argc, fl) in self.natives:
            d = dict(name=name, flavour=fl, argc=argc)
            if r.random() < .6:
                d["closure"] = r.choice([["i", r.randint(0, 9)], ["s", "clo"], ["a", [["i", 1]]], ["t", [["i", 1], ["s", "z"]]]])
            else:
                d["closure"] = ["null"]
            if fl == "resumable":
                d["locals"] = r.choice([0, 1, 2])
                d["program"], self.level[name] = self.resprog(argc, d["locals"])
                self.made.append(name)
            else:
                d["program"] = self.ops(fl, argc)
            ndefs.append(["native", "v", name, d])
        # scripts
        items = [Decl("toks", Arr(), False), FDecl("init", Fn([], Blk(MCall(Var("toks"), "append", std("coroutine_token")))))]
        for i, f in enumerate(self.order):
            self.cur = i
            ps = ["x", "y"][:self.ar[f]]
            body = self.stmts(2)
            if not ps:
                body.insert(0, Decl("x", self.simple0()))
            if r.random() < .6:
                body.append(self.simple())
            items.append(FDecl(f, Fn(ps, Blk(*body))))
        cmds = [["vm", "v"], ["std", "v"], ["native", "v", "t", {"name": "t", "flavour": "trace"}],
                ["native", "v", "wait", {"name": "wait", "flavour": "async", "argc": 1, "program": [["tok", ["arg", 0]], ["yield"]]}]] + ndefs
        cmds += [["module", "v", "h", [["t", "t"], ["wait", "wait"]] + [[n[0], n[0]] for n in self.natives]], ["load", "v", "m", ""], ["export", "v", "m", "init", "init"]]
        cmds += [["export", "v", "m", f, f] for f in self.order]
        cmds += [["call", "v", "init", ["NULL"]]]
        for c in self.coregs:
            cmds.append(["coro", "v", c, r.choice(self.callable_regs), None])
            cmds[-1][4] = self.argsfor(cmds[-1][3])
            if r.random() < .75:
                if self.chance(w["callbacks"]):
                    self.cbn += 1
                    cmds.append(["callback", "v", c, r.choice(["cb%d", "n%d"]) % self.cbn, r.random() < .9, True, [self.hostcmd(True, True)] if r.random() < .3 else []])
                cmds.append(["start", "v", c])
        cmds.append(["run", "v"])
        for _ in range(r.randint(3, w["hostlen"])):
            if r.random() < .25:
                c = r.choice(self.coregs)
                cmds.append(self.corocmd(c))
                cmds.append(["start", "v", c])
                continue
            cmds.append(self.hostcmd())
            if cmds[-1][0] in ("tokret", "tokpanic", "start") and r.random() < .55:
                cmds.append(["run", "v"])
        for k in self.names:       # let everything that waits finish
            if r.random() < .7:
                cmds.append(["tokret", "v", k, ["i", 7]])
        cmds += [["run", "v"], ["ready", "v"]]
        cmds += [["status", "v", c] for c in self.coregs]
        return Program(id, {"m": Module(items, self.order + ["init"], [("std", "std"), ("h", "h")])}, cmds)

    def simple0(self):
        return self.r.choice([Int(1), Str("a"), Null()])


def session(id, rng, **w):
    return Sess(rng, w).session(id)
