"""Random storage histories (C03) for Blocks.tla and the host commands carrying them out."""
import gengraph

SRC = gengraph.SRC + """
var kept = [];
export func keep(n, size) { for var i = 0; i < n; i += 1 { kept.append(std.new_buffer(size)); } return null; }
export func release() { kept = []; return null; }
"""
EXPORTS = gengraph.EXPORTS + ["keep", "release"]
PRELUDE = [["std", "v"], ["load", "v", "m", SRC]] + [["-export", "v", "m", n, "_" + n] for n in EXPORTS if n.startswith("churn") or n in ("keep", "release")]
# approximate number of live bytes the scripts need at most
CHURN = {"array": 60000, "tuple": 20000, "map": 20000, "string": 20000, "func": 20000, "coro": 200000, "wait": 200000, "num": 20000, "result": 20000, "buffer": 20000,
         "large": 250000, "grow": 300000, "deep": 150000, "iter": 20000}


class Blocks:
    def __init__(self, rng, churn=True):
        self.r, self.churn = rng, churn
        self.ops, self.cmds = [], []
        self.live = {}          # register -> register the block was created for
        self.names = ["a%d" % k for k in range(12)]
        self.next = 0
        self.kept = 0

    def op(self, o, *cmds):
        self.ops.append(o)
        self.cmds.append(list(cmds))

    def size(self):
        r = self.r
        c = r.random()
        if c < .45:
            return r.choice([1, 2, 7, 8, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129])
        if c < .75:
            return r.randint(1, 3000)
        if c < .9:
            return r.choice([4096, 5000, 8000, 12000, 16000, 16100, 16200, 16300, 16384, 16400])
        return r.choice([20000, 32768, 40000, 65536, 70000, 100000, 131072])

    def kind(self):
        r = self.r
        return ("n", r.choice([1, 1, 2, 4, 8, 16])) if r.random() < .6 else ("buf", 1)

    def block(self):
        # registers are bound to fresh names so that the pattern belongs to the block
        k, al = self.kind()
        s = self.size()
        self.next += 1
        x = "b%d" % self.next
        self.op(["block", x, k, s, al], ["block", "v", x, k, s, al])
        self.live[x] = x
        if len(self.live) > self.r.choice([8, 30, 80]):
            for _ in range(self.r.randint(1, len(self.live))):
                self.drop()

    def fill(self):
        k, al = self.kind()
        s = self.size()
        n = self.r.choice([3, 10, 40]) if s > 300 else self.r.choice([5, 20, 60])
        self.next += 1
        x = "f%d_" % self.next
        self.op(["fill", x, k, s, al, n], ["block", "v", x, k, s, al, n])
        for j in range(n):
            self.live[x + str(j)] = x + str(j)

    def exhaust(self):
        k, al = self.kind()
        s = self.r.choice([9000, 16300, 20000, 60000])
        self.next += 1
        x = "e%d_" % self.next
        self.op(["fill", x, k, s, al, 300], ["block", "v", x, k, s, al, 300])
        self.mem()
        # which of them exist is only known to the observation: all are dropped again
        self.op(["dropfill", x, 300], *[["drop", "v", x + str(j)] for j in range(300)])

    def drop(self):
        if self.live:
            x = self.r.choice(sorted(self.live))
            del self.live[x]
            self.op(["drop", x], ["drop", "v", x])

    def intact(self):
        for x in self.r.sample(sorted(self.live), min(len(self.live), self.r.choice([1, 5, 20]))):
            self.op(["intact", x], ["intact", "v", x, self.live[x]])

    def mem(self):
        self.op(["total"], ["total", "v"])
        self.op(["mem"], ["mem", "x"])

    def script(self):
        if self.churn:
            k = self.r.choice(list(CHURN))
            self.op(["script", CHURN[k]], ["call", "v", "_churn_" + k, ["t", [["i", gengraph.CHURN[k]]]]], ["total", "v"])

    def keep(self):
        if self.kept < 150000 and self.r.random() < .7:
            s = self.r.choice([100, 1000, 5000, 20000])
            n = max(1, self.r.choice([2000, 30000]) // s)
            self.kept += n * (s + 64)
            self.op(["script", self.kept + 20000], ["call", "v", "_keep", ["t", [["i", n], ["i", s]]]], ["total", "v"])
        else:
            self.kept = 0
            self.op(["script", 20000], ["call", "v", "_release", ["t", []]], ["total", "v"])

    def hog(self):
        """A script that runs into the limit: it fails, and nothing else happens."""
        self.op(["script", 1 << 28], ["call", "v", "_keep", ["t", [["i", 100000], ["i", self.r.choice([1000, 20000])]]]], ["total", "v"])
        self.intact()
        self.mem()
        self.op(["script", 1 << 28], ["call", "v", "_release", ["t", []]], ["total", "v"])
        # releasing may fail in a full heap: the stored buffers are gone after the next success
        self.op(["none"], ["gc", "v"])
        self.op(["script", 1 << 28], ["call", "v", "_release", ["t", []]], ["total", "v"])
        self.kept = 0

    def build(self, size, limited):
        r = self.r
        acts = [(self.block, 30), (self.drop, 22), (self.intact, 6), (self.fill, 2), (self.mem, 2), (lambda: self.op(["none"], ["gc", "v"]), 4), (self.script, .8), (self.keep, 2)]
        if limited:
            acts += [(self.exhaust, .7), (self.hog, .7)]
        fs, ws = zip(*acts)
        n = 0
        while n < size:
            r.choices(fs, ws)[0]()
            n += 1
        for x in sorted(self.live):
            self.op(["intact", x], ["intact", "v", x, self.live[x]])
        self.mem()
        self.op(["freed"], ["free", "v"], ["mem", "x"])
        return self


def commands(cmds, vm, pre=()):
    warm = [["vm", "v", vm]] + PRELUDE + [["gc", "v"], ["-free", "v"]]
    out = list(pre) + warm + [["mem", "base"], ["vm", "v", vm]] + PRELUDE + [["mark", "start"]]
    for k, c in enumerate(cmds):
        out += c + [["mark", str(k)]]
    return out


def observe(log, ops):
    if ["mark", "start"] not in log:
        return []
    out, cur = [], []
    for e in log[log.index(["mark", "start"]) + 1:]:
        if e[0] == "mark":
            out.append(cur)
            cur = []
        elif e[0] in ("block", "intact"):
            cur.append(e)
        elif e[0] == "mem":
            cur.append(e[1])
        elif e[0] == "total":
            cur.append(int(e[1]))
        elif e[0] == "call":
            cur.append("ok" if e[2] == "OK" and e[3][0] == "ok" else "ALLOC" if e[2] == "ALLOC" else "bad")
    return out[:len(ops)]
