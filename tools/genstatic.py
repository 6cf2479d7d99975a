"""Random syntax trees for Static.tla: few names, so that collisions, shadowing and violations of every rule are frequent.
`noise` is the probability with which a choice ignores the rules."""
import random
from lang import *
import lang

NAMES = ["a", "b", "c", "d", "e"]


class G:
    def __init__(self, rng, noise, at=None):
        self.at, self.calls = at, 0
        self.r, self.noise = rng, noise
        self.sc = []        # names visible: list of dicts name -> kind
        self.loop = self.fn = 0
        self.dj = 0         # inside a deferred expression: 2 no jump may leave it, 1 only break and continue of an own loop
        self.budget = 60

    def bad(self):
        if self.at is not None:     # exactly one choice ignores the rules
            self.calls += 1
            return self.calls - 1 == self.at
        return self.r.random() < self.noise

    def name(self, kinds=None):
        if self.bad():
            return self.r.choice(NAMES + ["zz"])
        seen, out = set(), []
        for s in reversed(self.sc):
            for n, k in s.items():
                if n not in seen:
                    seen.add(n)
                    if kinds is None or k in kinds:
                        out.append(n)
        return self.r.choice(out) if out else None

    def fresh(self):
        free = [n for n in NAMES if n not in self.sc[-1]]
        return self.r.choice(NAMES if self.bad() or not free else free)

    # expressions
    def leaf(self):
        r = self.r
        if r.random() < .6:
            n = self.name()
            if n:
                return Var(n)
        return r.choice([Int(r.randint(0, 9)), Bool(True), Null(), Str("s"), Sym("x"), Flt(512)])

    def ex(self, d, value=True):
        r = self.r
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.leaf()
        c = r.random()
        if c < .22:
            return self.leaf()
        if c < .32:
            return Bin(r.choice(["+", "-", "==", "<", "*"]), self.ex(d - 1), self.ex(d - 1))
        if c < .40:
            return r.choice([And, Or, Coal])(self.ex(d - 1), self.ex(d - 1))
        if c < .43:
            return Un(r.choice(["-", "!"]), self.ex(d - 1))
        if c < .58:
            return self.assign(d)
        if c < .66:
            els = self.block(d - 1, value)
            if r.random() < .2:
                els = If(self.ex(d - 1), self.block(d - 1, value), els)
            return If(self.ex(d - 1), self.block(d - 1, value), None if (not value and r.random() < .4) or self.bad() else els)
        if c < .72:
            return self.block(d - 1, value)
        if c < .78:
            return self.func(d - 1)
        if c < .84:
            return chain(self.path(d))
        if c < .92:
            return r.choice([lambda: Tup(self.ex(d - 1), self.ex(d - 1)), lambda: Arr(self.ex(d - 1)), lambda: MapL(self.ex(d - 1), self.ex(d - 1)),
                             lambda: N("rec", [self.ex(d - 1), self.ex(d - 1)], s=["x", "x" if self.bad() else "y"]), lambda: Interp(Str("q"), self.ex(d - 1)), lambda: SetL(self.ex(d - 1))])()
        return self.jump(d)

    def jump(self, d):
        r = self.r
        opts = []
        if self.dj == 0 and (self.fn or self.bad()):
            opts += [lambda: Return(self.ex(d - 1)), lambda: Return()]
        if self.dj < 2 and (self.loop or self.bad()):
            opts += [Break, Continue]
        return r.choice(opts)() if opts else self.leaf()

    def path(self, d, opt=True):
        r = self.r
        e = self.leaf() if r.random() < .7 else self.ex(d - 1)
        if e.o in ("chain",) and r.random() < .5:
            e = e.c[0]
        for _ in range(r.randint(1, 3)):
            q = 1 if opt and r.random() < .3 else 0
            c = r.random()
            if c < .35:
                e = Mem(e, r.choice("xy"), q)
            elif c < .5:
                e = Tf(e, r.randint(0, 1), q)
            elif c < .75:
                e = Idx(e, self.ex(d - 2), q)
            elif c < .9 and e.o != "mem":
                e = Call(e, *[self.ex(d - 2) for _ in range(r.randint(0, 2))], opt=q)
            else:
                e = MCall(e, "m", self.ex(d - 2), opt=r.choice([1, 2, 3]) if q else 0)
        return e

    def assign(self, d):
        r = self.r
        op = "=" if r.random() < .7 else r.choice(["+=", "-=", "*=", "**=", "/=", "%="])

        def tgt(allow):
            c = r.random()
            if self.bad():
                n = self.name(("const", "const", "func", "import")) if r.random() < .75 else None
                return Var(n) if n else self.ex(1)
            if c < .65:
                n = self.name(("var", "param"))
                if n:
                    return Var(n)
            if c < .9 or not allow:
                p = self.path(d - 1, opt=self.bad())
                if p.o in ("call", "mcall"):
                    p = Mem(p, "x")
                return chain(p)
            return Tup(*[tgt(self.bad()) for _ in range(r.randint(1, 3))])
        return N("xasg", [tgt(op == "=" or self.bad()), self.ex(d - 1)], n=op)

    def func(self, d, name=None):
        r = self.r
        ps = []
        for _ in range(r.randint(0, 2)):
            ps.append(r.choice([n for n in NAMES if self.bad() or n not in ps]))
        old = self.loop, self.fn, self.dj
        self.loop, self.fn, self.dj = (self.loop if self.bad() else 0), 1, 0
        self.sc.append({p: "param" for p in ps})
        expr = r.random() < .3
        if expr:
            self.sc.append({})
            body = self.ex(d)
            self.sc.pop()
        else:
            body = self.block(d, False)
        self.sc.pop()
        self.loop, self.fn, self.dj = old
        return Fn(ps, body, expr)

    # statements
    def block(self, d, value):
        self.sc.append({})
        st = [self.stmt(d) for _ in range(self.r.randint(0, 3) if d > 0 else self.r.randint(0, 1))]
        if value and not self.bad():
            st.append(self.ex(d - 1))
        self.sc.pop()
        return Blk(*st)

    def decl(self, d, exported=False):
        r = self.r
        const = r.random() < .4 or exported
        if self.bad():
            const = not const
        init = self.ex(d - 1) if (const or r.random() < .6) and not self.bad() else None
        if r.random() < .15:
            ns = []
            for _ in range(r.randint(1, 3)):
                ns.append(self.fresh() if self.bad() else r.choice([n for n in NAMES if n not in ns]))
            n = DeclT(ns, init, const)
        else:
            n = Decl(self.fresh(), init, const)
        for k in n.s:
            self.sc[-1][k] = "const" if const else "var"
        if r.random() < .08 and n.o == "decl":
            m = Decl(self.fresh(), self.ex(d - 1) if const or r.random() < .6 else None, const)
            self.sc[-1][m.s[0]] = "const" if const else "var"
            return N("multi", [n, m], i=n.i)
        return n

    def loopbody(self, d, names=()):
        self.loop += 1
        dj, self.dj = self.dj, min(self.dj, 1)
        self.sc.append({n: "const" for n in names})
        b = self.block(d, False)
        self.sc.pop()
        self.loop -= 1
        self.dj = dj
        return b

    def stmt(self, d):
        r = self.r
        self.budget -= 1
        c = r.random()
        if d <= 0 or self.budget <= 0:
            c = r.random() * .5
        if c < .28:
            return self.decl(d)
        if c < .5:
            return self.assign(d) if r.random() < .6 else self.ex(d, False)
        if c < .60:
            return self.ex(d, False)
        if c < .66:
            n = self.fresh()
            self.sc[-1][n] = "func"
            return FDecl(n, self.func(d - 1))
        if c < .74:
            return While(self.ex(d - 1), self.loopbody(d - 1))
        if c < .80:
            self.sc.append({})
            dcl = self.decl(d - 1) if r.random() < .7 else None
            n = For(dcl, self.ex(d - 1) if r.random() < .7 else None, self.ex(d - 1, False) if r.random() < .7 else None, None)
            n.c[3] = self.loopbody(d - 1)
            self.sc.pop()
            return n
        if c < .86:
            e = self.ex(d - 1)
            ns = [r.choice(NAMES)]
            tup = r.random() < .3
            if tup:
                ns.append(r.choice([n for n in NAMES if self.bad() or n != ns[0]]))
            return Each(ns, e, self.loopbody(d - 1, ns), tup)
        if c < .92:
            dj, self.dj = self.dj, 2
            e = self.ex(d - 1, False)
            self.dj = dj
            return Defer(e)
        if c < .95:
            k = r.choice([0, 3]) if self.bad() else r.randint(1, 2)
            return N("assert", [self.ex(d - 1) for _ in range(k)])
        return self.jump(d)


# the general assignment and several bindings are rendered here
_ex, _stmt = lang.ex, lang.stmt


def ex2(e, ind=0):
    if e.o == "xasg":
        t = e.c[0]
        s = ex2(t, ind)
        if t.o not in ATOM:
            s = "(%s)" % s
        return "%s %s %s" % (s, e.n, ex2(e.c[1], ind))
    return _ex(e, ind)


def stmt2(s, ind=0):
    if s.o == "multi":
        kw = "const" if s.c[0].i else "var"
        return "%s %s;" % (kw, ", ".join(_stmt(x, ind)[len("const " if x.i else "var "):-1] for x in s.c))
    if s.o == "for":
        # braces in the head would be taken for the body
        d, c, st, b = s.c
        head = ""
        if d:
            head = ("const " if d.i else "var ") + ", ".join(("(%s)" % ", ".join(x.s) if x.o == "dect" else x.s[0]) + (" = (%s)" % ex2(x.c[0], ind) if x.c else "") for x in (d.c if d.o == "multi" else [d]))
        return "for %s; %s; %s %s" % (head, ex2(c, ind) if c else "", "(%s)" % ex2(st, ind) if st else "", blk(b, ind))
    return _stmt(s, ind)


lang.ex, lang.stmt = ex2, stmt2
lang.ATOM = ATOM


class Mod:
    def __init__(self, files):
        self.files = files      # list of (imports [(path, alias)], items [(export?, node)])

    def sources(self):
        out = {}
        for k, (imps, items) in enumerate(self.files):
            t = ["import %s;" % p if p == a else "import %s as %s;" % (p, a) for p, a in imps]
            for exported, n in items:
                t.append(("export " if exported else "") + lang.stmt(n))
            out["f%d" % k] = "\n".join(t) + "\n"
        return out

    def case(self, id):
        nodes = []

        def flat(e, x=""):
            if not e:
                return 0
            nodes.append(None)
            my = len(nodes)
            c = [flat(k) for k in e.c]
            if e.o == "multi" :
                pass
            nodes[my - 1] = {"o": e.o, "n": e.n, "i": e.i & 1 if e.o in ("fn", "decl", "dect", "multi") else e.i, "i2": e.i2, "c": c, "s": list(e.s), "x": x}
            return my
        files = [dict(imports=[a for p, a in imps], items=[flat(n, "export" if x else "") for x, n in items]) for imps, items in self.files]
        return dict(id=id, nodes=nodes, files=files)


def single(make):
    """A module in which one choice, picked at random, ignores the rules; make() -> the same random numbers each time."""
    n = module(make(), 0, -1).calls
    r = make()
    k = random.Random(r.random()).randrange(n)
    return module(make(), 0, k)


def module(rng, noise, at=None):
    g = G(rng, noise, at)
    g.sc.append({})
    files = []
    for _ in range(1 if rng.random() < .85 else 2):
        imps = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            p = rng.choice(["std", "other", "x.y"])
            a = p if p != "x.y" and rng.random() < .5 else rng.choice(NAMES)
            if a in [i[1] for i in imps] and not g.bad():
                continue
            imps.append((p, a))
        g.sc.append({})
        for p, a in imps:
            g.sc[0].setdefault(a, "import")
        g.sc.pop()
        items = []
        for _ in range(rng.randint(1, 4)):
            exported = rng.random() < .2
            g.budget = 40
            c = rng.random()
            if g.bad() and c < .2:
                n = g.ex(2, False)
                exported = False
            elif c < .4:
                n = g.decl(3, exported)
                if exported and g.bad():
                    for x in [n] + (n.c if n.o == "multi" else []):
                        x.i ^= 1
            else:
                name = g.fresh()
                g.sc[-1][name] = "func"
                n = FDecl(name, g.func(4))
            items.append((exported, n))
        files.append((imps, items))
    m = Mod(files)
    m.calls = g.calls
    return m
