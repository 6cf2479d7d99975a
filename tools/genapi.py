"""Random host sessions that use the data and object functions of the interface directly, next to scripts working on the same objects (C12, C21)."""
from lang import *
from gensess import std, t

HUGE = [2 ** 64 - 1, 2 ** 64 - 8, 2 ** 63, 2 ** 63 - 1, 2 ** 61, 2 ** 61 - 1, 2 ** 60, 2 ** 40, 2 ** 32, 2 ** 32 + 1]
BIG = [2 ** 63 - 1, -2 ** 63, 2 ** 62, 2 ** 62 - 1, -2 ** 62, -2 ** 62 - 1, 2 ** 53 + 1, 10 ** 15]
KINDS = ["NULL", "BOOLEAN", "INTEGER", "FLOAT", "STRING", "FUNCTION", "TUPLE", "RECORD", "RECORD_SCHEMA", "ARRAY", "BUFFER", "RESULT", "EXCEPTION", "COROUTINE", "MODULE",
         "TYPE", "NATIVE", "INTERNAL", "INVALID", "OTHER"]
KEYS = ["p", "q", "long_key", "size", "Z"]

# script side: (name, parameters, statements, kinds of the arguments, kind of the result)
def library():
    a, b, c = Var("a"), Var("b"), Var("c")
    S = [("id", "a", [a], "?", "?"),
         ("push", "ab", [MCall(a, "append", b), MCall(a, "size")], "a?", "i"),
         ("put", "abc", [Asg(Idx(a, b), c)], "ai?", "?"),
         ("at", "ab", [Idx(a, b)], "ai", "?"),
         ("tput", "ab", [Asg(Tf(a, 1), b)], "t?", "?"),
         ("tat", "a", [Tf(a, 0)], "t", "?"),
         ("getp", "a", [Mem(a, "p")], "r", "?"),
         ("setp", "ab", [Asg(Mem(a, "p"), b), a], "r?", "r"),
         ("bump", "ab", [CAsg("+", Idx(a, b), Int(1))], "bi", "i"),
         ("mkrec", "ab", [Rec(p=a, q=b)], "??", "r"),
         ("mkrec2", "ab", [Rec(q=b, p=a, Z=Int(1))], "??", "r"),
         ("mkarr", "ab", [Arr(a, b, Arr(a))], "??", "a"),
         ("mktup", "ab", [Tup(a, b)], "??", "t"),
         ("mkmap", "ab", [MapL(a, b)], "??", "x"),
         ("mkset", "ab", [SetL(a, b)], "??", "x"),
         ("ok", "a", [std("success", a)], "?", "o"),
         ("err", "a", [std("error", a)], "?", "o"),
         ("val", "a", [MCall(a, "value")], "o", "?"),
         ("clo", "a", [Fn(["z"], Blk(Tup(a, Var("z"))))], "?", "f"),
         ("buf", "a", [std("new_buffer", a)], "i", "b"),
         ("exc", "a", [std("catch_panic", Fn([], Blk(std("panic", a))))], "s", "o"),
         ("slice", "a", [MCall(a, "slice_first", Int(1))], "s", "x"),
         ("typ", "a", [std("type_of", a)], "?", "y"),
         ("tyname", "a", [MCall(a, "name")], "y", "s"),
         ("boom", "a", [std("panic", a)], "s", "?"),
         ("cur", "a", [std("current_coroutine")], "?", "c"),
         ("go", "a", [std("launch", Fn([], Blk(std("dispatch"), a)))], "?", "c"),
         ("tok", "a", [std("coroutine_token")], "?", "x"),
         ("sizes", "a", [MCall(a, "size")], "a", "i"),
         ("clear", "a", [MCall(a, "clear")], "a", "n"),
         ("each", "a", [Each(["v"], a, Blk(t(Var("v"))))], "a", "n"),
         ("fields", "ab", [t(Bin("==", Mem(a, "p"), b), Bin("==", a, b))], "r?", "n"),
         ("stdm", "a", [Var("std")], "?", "m"),
         ("twice", "ab", [MCall(a, "append", b), MCall(a, "append", a), Idx(a, Int(0))], "a?", "?")]
    return S


class Api:
    def __init__(self, rng, size=30, wrong=0.12, modes=0.12, scripts=0.3, focus=None, faults=0):
        self.r, self.size, self.wrong, self.modes, self.scripts = rng, size, wrong, modes, scripts
        self.focus = focus
        self.faults = faults
        self.kind = {}

    def reg(self, want="?", wrong=None):
        """A register of that kind, mostly."""
        r = self.r
        if r.random() < (self.wrong if wrong is None else wrong):
            return r.choice(self.regs)
        ok = [x for x in self.regs if want == "?" or self.kind.get(x) in want]
        return r.choice(ok or self.regs)

    def h(self, want="?"):
        if self.r.random() < self.wrong * .35:
            return ["N"]
        return ["h", self.reg(want)]

    def out(self):
        if self.r.random() < self.wrong * .2:
            return ["N"]
        return ["h", self.r.choice(self.regs[:-2])]

    def idx(self):
        r = self.r
        c = r.random()
        return ["z", r.choice([0, 0, 0, 1, 1, 2, 3])] if c < .8 else ["z", r.randint(4, 70)] if c < .9 else ["Z", str(r.choice(HUGE))]

    def size_(self, big=70):
        r = self.r
        c = r.random()
        return ["z", r.choice([0, 1, 1, 2, 2, 3, 5])] if c < .75 else ["z", r.randint(0, big)] if c < .9 or self.nohuge else ["Z", str(r.choice([x for x in HUGE if x >= 2 ** 40]))]

    def string(self):
        r = self.r
        if r.random() < self.wrong * .2:
            return ["S0"]
        return ["s", r.choice(KEYS + ["", "x", "ab", "m", "hm0", "hm1", "a longer text, with spaces"])]

    def num(self):
        r = self.r
        if r.random() < .2:
            return ["I", str(r.choice(BIG))]
        n = r.choice([0, 1, 2, -1, 5, 300, 70000, -123456])
        return ["i", str(n), n]

    def flt(self):
        n = self.r.choice([0, 512, 1024, -1536, 3, 1024 * 500 + 1, -7])
        return ["f", float(n / 1024).hex(), n]

    def call(self):
        r = self.r
        name, ps, _, want, res = r.choice(self.lib)
        args = [["reg", self.reg(w)] for w in want]
        if r.random() < self.wrong * .3:
            args = args[:-1] or [["null"], ["null"]]
        o = r.choice(self.regs[:-2])
        self.kind[o] = res
        return ["call", "v", name, ["t", args], o]

    def api(self):
        r = self.r
        F = dict(
            kind=2, same=1, to_string=1, copy=2, type=1, kind_type=.5, make_null=.3, make_boolean=.5, boolean_value=.5, make_integer=1.5, integer_value=.7, make_float=.5,
            float_value=.4, make_string=1.5, string_value=.5, string_cstr=.3, make_buffer=1, buffer_size=.5, buffer_is_pinned=.2, buffer_put=1, make_tuple=1.5, tuple_size=.5,
            tuple_get=2, tuple_set=2.5, make_record_schema=1, make_record=1, record_keys=.7, record_get=2, record_set=2.5, make_array=1.5, array_size=.7, array_get=2.5, array_set=2,
            array_push=4, array_pop=1.5, array_clear=.5, make_success=.6, make_error=.6, is_success=.4, is_error=.4, result_value=.8, result_error=.8, exception_message=.5,
            exception_trace=.2, make_coroutine=.8, coroutine_started=.4, coroutine_completed=.4, coroutine_result=.6, coroutine_start=.8, make_module=.5, module_get_export=.6,
            load_module=.5, load_std=.1, load_bytecode=.05, get_export=.7, run_ready=.6, has_ready=.4, type_name=.6, make_native=.8, native_size=.4, native_put=.5, native_type=.3,
            make_sync_function=.5, make_async_function=.3, make_resumable_function=.3, null_frames=.03, settings=.1)
        fs = list(F)
        fn = r.choices(fs, [F[x] for x in fs])[0]
        h, o, k = self.h, self.out(), None
        a = None
        if fn in ("kind", "type", "to_string", "boolean_value"): a = [h()]
        elif fn == "same": a = [h(), h()]
        elif fn == "copy": a, k = [h()], "?"
        elif fn == "kind_type": a = [["k", r.choice(KINDS)]]
        elif fn == "make_null": a = []
        elif fn == "make_boolean": a = [["b", r.random() < .5]]
        elif fn in ("integer_value", "float_value"): a = [h("i")]
        elif fn == "make_integer": a = [self.num()]
        elif fn == "make_float": a = [self.flt()]
        elif fn == "make_string": a = [self.string()]
        elif fn in ("string_value", "string_cstr"): a = [h("s"), ["p", r.random() > self.wrong * .3]]
        elif fn == "make_buffer": a = [self.size_(200)]
        elif fn in ("buffer_size", "buffer_is_pinned"): a = [h("b")]
        elif fn == "buffer_put": a = [h("b"), ["z", r.choice([0, 1, 2, 30])], ["z", r.randint(0, 255)]]
        elif fn in ("make_tuple", "make_array"): a = [self.size_()]
        elif fn == "tuple_size": a = [h("t")]
        elif fn == "array_size": a = [h("a")]
        elif fn == "tuple_get": a = [h("t"), self.idx()]
        elif fn == "tuple_set": a = [h("t"), self.idx(), h()]
        elif fn == "array_get": a = [h("a"), self.idx()]
        elif fn == "array_set": a = [h("a"), self.idx(), h()]
        elif fn == "array_push": a = [h("a"), h()]
        elif fn in ("array_pop", "array_clear"): a = [h("a")]
        elif fn == "make_record_schema": a = [["h", r.choice(["keys", "keys", "keys2"])] if r.random() < .85 else h("a")]
        elif fn == "make_record": a = [h("S")]
        elif fn == "record_keys": return self.finish([["h", self.reg("r")] if r.random() < .9 else h(), ["h", "keys2"]], fn)
        elif fn in ("record_get", "record_set"):
            a = [h("r"), ["h", r.choice(["k_p", "k_p", "k_q", "k_l"])] if r.random() < .85 else h("s")]
            if fn == "record_set":
                a.append(h())
        elif fn in ("make_success", "make_error"): a = [h()]
        elif fn in ("is_success", "is_error", "result_value", "result_error"): a = [h("o")]
        elif fn in ("exception_message", "exception_trace"): a = [h("e")]
        elif fn == "make_coroutine": a = [h("f"), h("tn") if r.random() < .6 else h(r.choice("aaosb")) if r.random() < .5 else ["N"]]
        elif fn in ("coroutine_started", "coroutine_completed", "coroutine_result", "coroutine_start"): a = [h("c")]
        elif fn == "make_module":
            ms = []
            for i in range(r.randint(0, 3)):
                ms += [["s", r.choice(KEYS)] if r.random() > .03 else self.string(), h()]
            # the same member twice is not specified
            seen = set()
            out = []
            for i in range(0, len(ms), 2):
                if ms[i][-1] not in seen:
                    out += ms[i:i + 2]
                seen.add(ms[i][-1])
            a = [["s", r.choice(["hm0", "hm1", "hm2", "m"])] if r.random() < .9 else self.string(), ["p", r.random() > self.wrong * .2]]
            self.note(o, "m")
            return self.finish(a + [o] + out, fn)
        elif fn == "module_get_export": a = [h("m"), self.string()]
        elif fn == "load_module": a = [h("m")]
        elif fn == "get_export": a = [["s", r.choice(["hm0", "hm1", "m", "std", "none"])] if r.random() < .9 else self.string(), ["s", r.choice(["push", "print", "p", "q", "lib", "Tuple"])]]
        elif fn == "type_name": a = [h("y")]
        elif fn == "make_native": a = [self.size_(200), ["z", r.choice([1, 2, 4, 8, 16, 16, 8, 3, 0, 6, 32, 4096])] if r.random() > .05 else ["Z", str(2 ** 63)], ["p", r.random() > .05]]
        elif fn in ("native_size", "native_type"): a = [h("N")]
        elif fn == "native_put": a = [h("N"), ["s", ""]]
        elif fn in ("make_sync_function", "make_async_function", "make_resumable_function"):
            res = fn == "make_resumable_function"
            self.note(o, "x" if res else "f")
            return self.finish([h("s"), ["p", r.random() > .05], ["z", r.choice([0, 1, 2, 1024, 1025])] if r.random() < .95 else ["Z", str(r.choice(HUGE))], h() if r.random() < .6 else ["N"],
                                o if o[0] == "N" else ["h", "nofun"] if res else o] + ([["z", r.choice([0, 1, 16383, 16384, 16385])]] if res else []), fn)
        else: a = []
        if fn == "make_tuple": k = "t"
        OUT = dict(make_null="n", to_string="x", copy="?", type="y", kind_type="y", make_boolean="n", make_integer="i", make_float="i", make_string="s", make_buffer="b", make_tuple="t",
                   tuple_get="?", array_get="?", record_get="?", make_record_schema="S", make_record="r", make_array="a", make_success="o", make_error="o", result_value="?",
                   result_error="?", exception_message="x", exception_trace="n", make_coroutine="c", coroutine_result="o", module_get_export="?", get_export="f", type_name="s",
                   make_native="N")
        if fn in OUT:
            if fn in ("to_string", "exception_message"):       # texts that are not specified stay out of the way
                o = ["h", "txt"] if o[0] != "N" else o
            else:
                self.note(o, self.kind.get(a[0][1], "?") if fn == "copy" and a[0][0] == "h" else "e" if fn == "result_error" and r.random() < .4 else OUT[fn])
            a.append(o)
        return self.finish(a, fn)

    def note(self, o, k):
        if o[0] == "h" and o[1] in self.regs:
            self.kind[o[1]] = k

    def finish(self, a, fn):
        r = self.r
        mode = ""
        if fn != "null_frames" and r.random() < self.modes:
            mode = r.choice(["noerr", "kept", "novm"])
        return ["api", "v", fn, a, mode]

    SIMPLE = [["s", "text"], ["buf", 40], ["n", "nt", 4, 8, False], ["s", ""]]

    def fault(self, i):
        """A command whose n-th allocation fails, mostly followed by the same command without a failure."""
        r = self.r
        k = r.choice("aaaaaasscckkntm")
        if k == "a":
            c = self.api()
            while c[2] in ("null_frames", "load_bytecode", "same", "run_ready", "to_string", "exception_message"):
                c = self.api()
            c[4] = ""
        elif k == "s":
            x = r.choice(self.regs[:-2])
            c = ["set", "v", x, r.choice(self.SIMPLE)]
            self.kind[x] = "?"
        elif k == "c":
            c = ["coro", "v", "co%d" % i, r.choice([x[0] for x in self.lib]), ["NULL"]]
        elif k == "k":
            c = ["callback", "v", "fco%d" % i, "cb%d" % i, r.random() < .8]
        elif k == "n":
            c = ["native", "v", "nf%d" % i, {"name": "nf", "flavour": r.choice(["sync", "async", "resumable"]), "argc": r.choice([0, 1, 1, 1025])}]
        elif k == "t":
            c = ["start", "v", "fco%d" % i]
        else:
            c = ["module", "v", "fm%d" % i, [[x, r.choice(self.regs)] for x in KEYS[:r.randint(0, 3)]]]
        pre = [["coro", "v", "fco%d" % i, self.lib[0][0], ["t", [["null"]] * len(self.lib[0][1])]]] if k == "k" or k == "t" else []
        again = [c]
        if k == "k":      # a replaced registration is cleaned up by some later collection: the second one gets its own coroutine
            again = [pre[0][:2] + ["fco%db" % i] + pre[0][3:], c[:2] + ["fco%db" % i, "cb%db" % i] + c[4:]]
        return pre + [["fault", r.choice([1, 1, 1, 2, 2, 3, 4, 6]), c]] + (again if r.random() < .7 else [])

    def faultload(self):
        out = []
        for i in range(self.r.choice([0, 1, 1, 3])):
            out.append(["fault", self.r.randint(1, 80), ["load", "v", "m2", ""]])
        return out + [["load", "v", "m2", ""], ["export", "v", "m2", "id", "m2id"], ["call", "v", "m2id", ["t", [["s", "x"]]], "x0"]]

    def session(self, id):
        r = self.r
        self.lib = [x for x in library() if r.random() < .75] or library()
        self.nohuge = False
        self.regs = ["x%d" % i for i in range(r.randint(4, 9))] + ["k_p", "k_q"]
        items = [FDecl(n, Fn(list(ps), Blk(*body[:-1], Return(body[-1]) if body[-1].o not in ("each",) else body[-1]))) for n, ps, body, _, _ in self.lib]
        cmds = [["vm", "v", {"page": 2 ** r.choice([16, 18, 20]), "max": r.choice([8, 16, 32]) * 2 ** 20}], ["std", "v"], ["native", "v", "t", {"name": "t", "flavour": "trace"}],
                ["module", "v", "h", [["t", "t"]]], ["load", "v", "m", ""]]
        cmds += [["export", "v", "m", x[0], x[0]] for x in self.lib]
        self.kind = {"k_p": "s", "k_q": "s"}
        ks = list(KEYS)
        r.shuffle(ks)
        cmds += [["set", "v", "k_p", ["s", "p"]], ["set", "v", "k_q", ["s", "q"]], ["set", "v", "k_l", ["s", "long_key"]],
                 ["set", "v", "keys", ["a", [["s", k] for k in ks[:r.randint(0, 5)]]]]]
        start = [("a", ["a", [["i", 1], ["s", "two"]]]), ("t", ["t", [["i", 3], ["null"], ["b", True]]]), ("r", ["r", [["p", ["i", 1]], ["q", ["s", "v"]]]]), ("i", ["i", 4]),
                 ("s", ["s", "txt"]), ("o", ["ok", ["i", 9]]), ("o", ["err", ["s", "bad"]]), ("N", ["n", "tag", 4, 1, False]), ("a", ["a", []])]
        for x in self.regs[:-2]:
            if r.random() < .75:
                k, v = r.choice(start)
                self.kind[x] = k
                cmds.append(["set", "v", x, v])
            else:
                self.kind[x] = "n"
        cmds.append(["call", "v", self.lib[0][0], ["t", [["null"]] * len(self.lib[0][1])], "x0"])
        n = r.randint(6, self.size)
        for i in range(n):
            c = r.random()
            if c < self.scripts:
                cmds.append(self.call())
            elif c < self.scripts + .06:
                cmds.append(["show", "v", r.choice(self.regs)])
            elif c < self.scripts + .08:
                cmds.append(["gc", "v"])
            else:
                cmds.append(self.api())
            if r.random() < self.faults:
                cmds += self.fault(i)
        if self.faults:
            cmds += self.faultload()
        cmds += [["run", "v"]] + [["show", "v", x] for x in self.regs]
        ms = {"m": Module(items, [x[0] for x in self.lib], [("std", "std"), ("h", "h")])}
        if self.faults:
            two = [("id", items[0])] + [(x[0], y) for x, y in zip(self.lib, items) if x[0] != self.lib[0][0] and r.random() < .3]
            ms["m2"] = Module([Decl("g", Arr(Str("state"), Flt(512), Sym("sym"))), FDecl("id", Fn(["a"], Blk(Return(Tup(Var("a"), Str("two"), Var("g"))))))] + [y for x, y in two[1:] if x != "id"],
                              ["id"], [("std", "std"), ("h", "h")])
        return Program(id, ms, cmds)


def session(id, rng, **w):
    return Api(rng, **w).session(id)
