"""C26: random lists of operations for the C++ interface (harness/cpp.cpp, Cpp.tla)."""
import json, os, subprocess, time
import tirobuild, vlib

KINDS = ["null", "bool", "int", "float", "str", "buf", "fn", "tuple", "rec", "schema", "arr", "result", "exc", "coro", "mod", "nat", "type"]
FUNCS = ["s%d" % i for i in range(9)] + ["a%d" % i for i in range(12)] + ["r%d" % i for i in range(14)]
# what a function finds useful: number of arguments
WANTS = dict(r11=1, r13=1, s1=1, s6=1, a1=1, r1=1, r2=1, r4=2, r9=2)
SPECIAL = [b"", b"a", b"key", b"caf\xc3\xa9", b"nul\x00in", b"\xff\xfe", b"x" * 40, b"(1, 2)", b"a b"]
INTS = [0, 1, -1, 42, 127, 128, -128, 1 << 31, -(1 << 31) - 1, (1 << 62) - 1, 1 << 62, -(1 << 62), -(1 << 62) - 1, (1 << 63) - 1, -(1 << 63)]
FLOATS = [0.0, -0.0, 1.0, 0.5, -2.25, 1e300, 5e-324, 3.141592653589793]


def esc(b):
    return "".join(chr(c) if chr(c).isascii() and (chr(c).isalnum() or chr(c) in " .-_") else "%%%02x" % c for c in b)


class Gen:
    def __init__(self, rng, size, p):
        self.r, self.p, self.ops = rng, p, []
        self.slots = {}     # name -> [vm, kind or "?", valid]
        self.ids = 0        # native objects
        self.cbs = 0
        self.toks = 0
        self.moved = [False, False]
        self.mods = {}
        if rng.random() < .4: self.ops.append(["twin"])
        for vm in range(2):
            for n in ["ab"[vm] + str(j) for j in range(8)] + ["ab"[vm] + "K", "ab"[vm] + "T", "ab"[vm] + "S", "R%d0" % vm, "R%d1" % vm]:
                self.ops.append(["new", n, vm])
                self.slots[n] = [vm, "null", True]
        for _ in range(size):
            self.step()
        self.ops.append(["end"])

    def name(self, vm):
        return "ab"[vm] + str(self.r.randrange(8))

    def find(self, vm, *kinds, wild=None):
        """A slot, usually of the machine and one of the kinds (r4 functions, slots R, are left alone)."""
        wild = self.p["wild"] if wild is None else wild
        usable = [n for n in self.slots if n[0] != "R" and n[1] not in "KT"]
        if not usable: return None
        if self.r.random() < wild:
            return self.r.choice(usable)
        good = [n for n in usable if self.slots[n][0] == vm and self.slots[n][2] and (not kinds or self.slots[n][1] in kinds or self.slots[n][1] == "?" and self.r.random() < .2)]
        return self.r.choice(good) if good else None

    def ok(self, n, vm, *kinds):
        s = self.slots[n]
        return s[2] and s[0] == vm and (not kinds or s[1] in kinds)

    def emit(self, *op, fault=True):
        op = list(op)
        if fault and self.r.random() < self.p["fault"]:
            op = ["fault", self.r.choice([1, 1, 1, 2, 2, 3]), op]
        self.ops.append(op)
        return op[0] != "fault"

    def put(self, d, vm, kind, good=True):
        if good: self.slots[d] = [vm, kind, True]

    def make(self, vm, kind=None, d=None):
        r = self.r
        kind = kind or r.choice(["null", "bool", "int", "float", "str", "str", "tuple", "tuple", "arr", "arr", "buf"])
        d = d or self.name(vm)
        if kind == "null": op = ["mk", d, vm, kind]
        elif kind == "bool": op = ["mk", d, vm, kind, r.random() < .5]
        elif kind == "int": op = ["mk", d, vm, kind, str(r.choice(INTS) if r.random() < .6 else r.randrange(-1000, 1000))]
        elif kind == "float": op = ["mk", d, vm, kind, hexf(r.choice(FLOATS))]
        elif kind == "str":
            b = r.choice(SPECIAL) if r.random() < .7 else bytes(r.randrange(256) for _ in range(r.randrange(6)))
            op = ["mk", d, vm, kind, esc(b), list(b)]
        elif kind == "tuple": op = ["mk", d, vm, kind, r.randrange(5)]
        elif kind == "arr": op = ["mk", d, vm, kind, r.choice([0, 0, 1, 7, 40])]
        else: op = ["mk", d, vm, kind, r.randrange(9)]
        self.put(d, vm, kind, self.emit(*op))
        return d

    def get(self, vm, *kinds):
        return self.find(vm, *kinds) or self.make(vm, self.r.choice([k for k in kinds if k in ("null", "bool", "int", "float", "str", "tuple", "arr", "buf")] or ["int"]))

    def native(self, vm):
        d = self.name(vm)
        self.ids += 1
        t = self.r.randrange(2)
        self.put(d, vm, "nat", self.emit("nat", d, vm, t, self.ids) and not self.moved[t])
        return d

    def record(self, vm):
        keys = sorted(self.r.sample(["a", "b", "key", "zz"], self.r.randrange(1, 4)))
        arr, st = "ab"[vm] + "K", "ab"[vm] + "S"
        self.ops.append(["mk", arr, vm, "arr", 0])
        self.slots[arr] = [vm, "arr", True]
        for k in keys:
            self.slots[st] = [vm, "str", True]
            self.ops.append(["mk", st, vm, "str", k, list(k.encode())])
            self.ops.append(["push", arr, st])
        if self.r.random() < .05: self.ops += [["new", st, vm], ["push", arr, st]]
        d, e = self.name(vm), self.name(vm)
        self.put(d, vm, "schema", self.emit("schema", d, vm, arr))
        if self.slots.get(d, [0, 0])[1] == "schema":
            self.put(e, vm, "rec", self.emit("rec", e, vm, d))
        # the array belongs to the record no longer
        if self.r.random() < .5: self.ops.append(["clear", arr])

    def function(self, vm, f=None):
        r = self.r
        f = f or r.choice(FUNCS)
        d = "R%d%d" % (vm, r.randrange(2)) if f == "r4" else self.name(vm)
        name = self.get(vm, "str")
        argc = WANTS.get(f, r.randrange(3)) if r.random() < .8 else r.randrange(4)
        closure = self.native(vm) if r.random() < .3 else self.get(vm)
        self.put(d, vm, "fn", self.emit("fn", d, vm, f, argc, closure, name) and self.ok(name, vm, "str") and self.ok(closure, vm))
        return d

    def args(self, vm, f):
        r = self.r
        if r.random() < .1: return "-"
        if r.random() < .05: return self.make(vm, r.choice(["null", "int", "str", "arr"]))
        # when a coroutine takes the elements of the tuple is not promised: this one is not used otherwise
        a = "ab"[vm] + "T"
        n = r.randrange(5)
        self.ops.append(["mk", a, vm, "tuple", n])
        self.slots[a] = [vm, "tuple", True]
        for j in range(n):
            if f.startswith("R"):
                v = self.get(vm, *(["fn"] if j == 0 else ["tuple"])) if r.random() < .9 else self.get(vm)
            else:
                v = self.native(vm) if r.random() < .3 else self.get(vm, *r.choice([("fn",), ("int",), ()]))
            self.ops.append(["set", a, "tuple", j, v])
        return a

    def step(self):
        r = self.r
        vm = int(r.random() < .25)
        c = r.choices(list(self.p["ops"]), list(self.p["ops"].values()))[0]
        getattr(self, "do_" + c)(vm)

    def drop(self, a):
        vm = int(a[0] == "b" or a[:2] == "R1")
        self.ops += [["drop", a], ["new", a, vm]]
        self.slots[a] = [vm, "null", True]

    # ---- groups of operations ----
    def do_make(self, vm): self.make(vm)
    def do_native(self, vm): self.native(vm)
    def do_record(self, vm): self.record(vm)
    def do_function(self, vm): self.function(vm)
    def do_show(self, vm): self.ops.append(["show", self.get(vm)])
    def do_new(self, vm):
        d = self.name(vm)
        self.ops.append(["new", d, vm])
        self.put(d, vm, "null")

    def do_result(self, vm):
        d, a = self.name(vm), self.get(vm)
        self.put(d, vm, "result", self.emit(self.r.choice(["ok", "fail"]), d, vm, a) and self.ok(a, vm))

    def do_handle(self, vm):
        r = self.r
        a = self.get(vm)
        o = r.choice(["copy", "copy", "assign", "assign", "move", "massign", "valid", "kind", "is", "as", "asm", "drop", "drop"])
        s = self.slots[a]
        if o in ("copy", "move", "as", "asm"): d = self.name(vm) if r.random() < .95 else a
        elif o in ("assign", "massign"): d = r.choice([n for n in self.slots if n[0] != "R" and n[1] not in "KT"])
        k = s[1] if s[1] in KINDS and r.random() < .7 else r.choice(KINDS)
        if o in ("copy", "assign"):
            self.ops.append([o, d, a])
            self.slots[d] = list(s)
        elif o in ("move", "massign"):
            self.ops.append([o, d, a])
            if d != a:
                self.slots[d] = list(s)
                self.slots[a] = [s[0], "?", False]
        elif o in ("as", "asm"):
            self.ops.append([o, d, a, k])
            good = s[2] and s[1] in (k, "?")
            if s[1] == "?" and s[2]:
                # whether the conversion succeeds is not known here
                if o == "asm":
                    self.slots[a] = [s[0], "?", False]
                    if d == a: self.slots[a][2] = True
                self.slots[d][1] = "?"
            elif good:
                if o == "asm": self.slots[a] = [s[0], "?", False]
                self.slots[d] = [s[0], k, True]
            elif o == "asm":
                self.slots[a] = [s[0], "?", False]
        elif o == "drop":
            self.drop(a)
        elif o == "is": self.ops.append([o, a, k])
        else: self.ops.append([o, a])

    def do_same(self, vm): self.ops.append(["same", vm, self.get(vm), self.get(vm)])

    def result_to(self, vm, op, a, *rest, kinds=(), kind="?", fault=True):
        """An operation that stores its result: the slot may stay as it is."""
        d = self.name(vm)
        good = self.emit(op, d, a, *rest, fault=fault)
        s = self.slots[a]
        if good and s[2] and s[1] in kinds: self.slots[d] = [s[0], kind, True]
        elif good and s[2] and s[1] == "?": self.slots[d] = [self.slots[d][0], "?", self.slots[d][2]] if self.slots[d][0] == s[0] else self.slots[d]
        return d

    def do_type(self, vm):
        a = self.get(vm)
        if self.r.random() < .5:
            d = self.result_to(vm, "typeof", a, kinds=KINDS, kind="type")
            if self.r.random() < .7: self.ops.append(["tyname", d])
        else:
            # only values whose text is known
            if self.slots[a][1] in ("null", "bool", "int", "str") or not self.slots[a][2]:
                self.result_to(vm, "str", a, kinds=KINDS, kind="str")

    def do_container(self, vm):
        r = self.r
        o = r.choice(["size", "size", "get", "get", "set", "set", "push", "push", "pop", "clear", "bset"])
        k = r.choice(["tuple", "arr"])
        if o == "size": self.ops.append([o, self.get(vm, r.choice([k, "buf"])), r.choice([k, "buf"])])
        elif o == "get":
            self.result_to(vm, o, self.get(vm, k), k, r.randrange(5), fault=False)
        elif o == "set":
            b = self.native(vm) if r.random() < .2 else self.get(vm)
            a = self.get(vm, k)
            self.ops.append([o, a, k, r.randrange(5), b])
        elif o == "push":
            b = self.native(vm) if r.random() < .2 else self.get(vm)
            self.emit(o, self.get(vm, "arr"), b)
        elif o in ("pop", "clear"): self.ops.append([o, self.get(vm, "arr")])
        else:
            for op in reversed(self.ops):
                if op[0] == "mk" and op[3] == "buf" and op[4] > 0 and self.slots.get(op[1], [0, 0])[1] == "buf" and op[1] not in [q[1] for q in self.ops[self.ops.index(op) + 1:] if q[0] != "bset" and len(q) > 1]:
                    self.ops.append([o, op[1], r.randrange(op[4]), r.randrange(256)])
                    self.ops.append(["show", op[1]])
                    return

    def do_rec(self, vm):
        r = self.r
        a = self.find(vm, "rec")
        if not a: return self.record(vm)
        key = "ab"[vm] + "S"
        k = r.choice(["a", "b", "key", "zz", "other"])
        self.ops.append(["mk", key, vm, "str", k, list(k.encode())])
        self.slots[key] = [vm, "str", True]
        if r.random() < .1: key = self.get(vm)
        o = r.choice(["rget", "rset", "rset", "keys"])
        if o == "rget": self.result_to(vm, o, a, key, fault=False)
        elif o == "rset" and r.random() < self.p["wild"]:     # everything, or all but the record, of the other machine
            other = "ab"[1 - vm] + "S"
            self.ops.append(["mk", other, 1 - vm, "str", k, list(k.encode())])
            self.slots[other] = [1 - vm, "str", True]
            self.ops.append([o, a, other, self.get(1 - vm)])
        elif o == "rset": self.ops.append([o, a, key, self.native(vm) if r.random() < .2 else self.get(vm)])
        else: self.ops.append([o, a])

    def do_res(self, vm):
        r = self.r
        a = self.find(vm, "result", "exc") or self.get(vm)
        o = r.choice(["rval", "rerr", "isok", "exmsg"])
        if o in ("isok", "exmsg"): self.ops.append([o, a])
        else:
            d = self.result_to(vm, o, a, fault=False)
            if self.slots[a][1] == "result" and self.slots[d][0] == self.slots[a][0]: self.slots[d][1] = "?"

    def do_nat(self, vm):
        r = self.r
        if r.random() < .06:
            t = r.randrange(2)
            self.moved[t] = not self.moved[t]
            self.ops.append(["tmove", t])
        elif r.random() < .05: self.ops.append(["tname", r.randrange(2)])
        else: self.ops.append([r.choice(["acc", "acc", "isdes", "des", "inst"]), r.randrange(2), self.find(vm, "nat") or self.native(vm)])

    def fn(self, vm):
        own = [n for n in self.slots if self.slots[n][:2] == [vm, "fn"] and self.slots[n][2]]
        if own and self.r.random() < .6: return self.r.choice(own)
        return self.function(vm) if self.r.random() < .95 else self.get(vm)

    def do_coroutine(self, vm):
        r = self.r
        f = self.fn(vm)
        args = self.args(vm, f)
        if r.random() < .4:
            self.cbs += 1
            self.emit("async", vm, f, args, self.cbs)
        else:
            d = self.name(vm)
            good = self.emit("co", d, vm, f, args) and self.ok(f, vm, "fn") and (args == "-" or self.ok(args, vm, "tuple", "null"))
            self.put(d, vm, "coro", good)
            if good:
                if r.random() < .6: self.callback(d)
                if r.random() < .8: self.emit("start", d)
                if r.random() < .2: self.callback(d)
                if r.random() < .2:
                    self.drop(d)
        if r.random() < .5: self.ops.append(["run", vm])

    def callback(self, d):
        self.cbs += 1
        self.emit("cb", d, self.cbs)

    def do_coro(self, vm):
        r = self.r
        a = self.find(vm, "coro") or self.get(vm)
        o = r.choice(["cb", "start", "started", "completed", "result", "result"])
        if o == "cb": self.callback(a)
        elif o == "result": self.result_to(vm, o, a, fault=False); self.slots[self.ops[-1][1]][1] = "?"
        else: self.ops.append([o, a])

    def do_run(self, vm): self.ops.append([self.r.choice(["run", "run", "run", "ready"]), vm])

    def do_token(self, vm):
        r = self.r
        k = r.randrange(1, 4) if r.random() < .5 else r.randrange(1, 7)
        o = r.choice(["tokret", "tokret", "tokret", "tokpanic", "tokdrop", "tokmove", "tokassign"])
        if o == "tokassign":
            self.ops.append([o, k, r.randrange(1, 5)])
            return
        self.ops.append([o, k, self.native(vm) if r.random() < .2 else self.get(vm)] if o == "tokret" else [o, k])
        if r.random() < .5: self.ops.append(["run", vm])

    def do_module(self, vm):
        r = self.r
        o = r.choice(["mod", "mload", "mget", "export", "export", "load"])
        if o == "mod":
            d = self.name(vm)
            vs = [n for n in self.slots if self.slots[n][0] == vm and n[0] != "R" and n[1] not in "KT"]
            vs = r.sample(vs, min(len(vs), r.randrange(4)))
            # the machine of a handle whose operation failed may differ from what is assumed here
            vs = [n for n in vs if n[0] == "ab"[vm]]
            good = self.emit(o, d, vm, r.choice(["m1", "m2"]), [["e%d" % j, n] for j, n in enumerate(vs)]) and all(self.slots[n][2] for n in vs)
            self.put(d, vm, "mod", good)
        elif o == "mload": self.ops.append([o, vm, self.find(vm, "mod") or self.get(vm)])
        elif o == "mget": self.result_to(vm, o, self.find(vm, "mod") or self.get(vm), r.choice(["e0", "e1", "e2"]), fault=False)
        elif o == "load": self.ops.append([o, vm])
        else:
            d = self.name(vm)
            self.ops.append([o, d, vm, *r.choice([("lib", "id"), ("lib", "wrap"), ("lib", "seven"), ("lib", "none"), ("m1", "e0"), ("m2", "e0"), ("m2", "e1"), ("none", "e0")])])
            self.slots[d][1] = "?"

    def do_gc(self, vm): self.ops.append(["gc", vm])

    def do_misc(self, vm):
        if self.r.random() < .2: self.ops.append(["settings", self.r.choice([1 << 16, 1 << 17, 1 << 20]), self.r.choice([1 << 22, 1 << 25])])
        else: self.ops.append(["compile", self.r.choice(["ok", "bad", "throw", "throwint", "warn", "attach", "move", "none"])])


def hexf(d):
    s = d.hex()     # Python writes 0x1.0000000000000p+0, printf %a 0x1p+0
    m, e = s.split("p")
    if "." in m:
        m = m.rstrip("0").rstrip(".")
    return m + "p" + e


OPS = dict(make=8, native=3, record=1, function=4, show=10, new=1, result=3, handle=14, same=2, type=2, container=8, rec=3, res=4, nat=5, coroutine=8, coro=4, run=4, token=5, module=3, gc=3, misc=.15)


def make(rng, wild=.08, fault=.05, size=40, **more):
    ops = dict(OPS)
    ops.update(more)
    return Gen(rng, size, dict(wild=wild, fault=fault, ops=ops)).ops


def observe(cases, name="C26"):
    """cases: [dict(id, ops)] -> the cases with their observations."""
    exe = tirobuild.build(name="cpp", sources=("cpp.cpp",))
    d = vlib.workdir(name)
    i, o = os.path.join(d, "in-%d.ndjson" % time.time_ns()), os.path.join(d, "out-%d.ndjson" % time.time_ns())
    with open(i, "w") as f:
        for c in cases: f.write(json.dumps(dict(id=c["id"], ops=c["ops"])) + "\n")
    r = subprocess.run([exe, i, o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise vlib.CheckError("the driver of the C++ interface failed: %s" % r.stdout[-2000:])
    res = {}
    for line in open(o, errors="replace"):
        e = json.loads(line)
        res[e["id"]] = e["r"]
    os.unlink(i)
    os.unlink(o)
    return [dict(id=c["id"], ops=c["ops"], r=res[c["id"]]) for c in cases]
