"""C12: indexed containers under operations with positions and values at the edges of what they accept."""
from lang import *
from gen import PRE
from gensess import std, t

EDGES = [-(1 << 31) + 1, -65536, -257, -256, -255, -129, -128, -127, -2, -1, 0, 1, 2, 3, 4, 7, 8, 9, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 65535, 65536, (1 << 31) - 1]


def program(id, rng):
    r = rng
    size = r.choice([0, 1, 2, 3, 8, 9])

    def big(v):
        """Integers beyond 32 bits are computed: the specification has no literals for them."""
        if -(1 << 31) < v < (1 << 31): return Int(v)
        s = -1 if v < 0 else 1
        k = abs(v).bit_length() - 1
        e = Bin("<<", Int(1), Int(k))
        return Un("-", e) if s < 0 else e

    def num():
        c = r.random()
        if c < .5: return big(r.choice([-1, 0, 1, size - 1, size, size + 1, r.randrange(max(1, size))]))
        return big(r.choice(EDGES) if c < .9 else r.randint(-300, 300))

    def val():
        c = r.random()
        if c < .7: return num()
        return r.choice([Null(), Str("x"), Flt(1024 * r.randint(-2, 300)), Bool(True), Tup(Int(1)), Sym("s"), Var("a"), Var("b")])

    def pos():
        c = r.random()
        if c < .55: return Int(r.randrange(max(1, size)))
        return num() if c < .93 else val()

    def cont(): return Var(r.choice(["a", "b", "b", "u", "s"]))

    def op():
        c = r.random()
        if c < .4: return [Asg(Idx(cont(), pos()), val())]
        if c < .55: return [Idx(cont(), pos())]
        if c < .65: return [CAsg(r.choice(["+", "-", "*"]), Idx(cont(), pos()), Int(r.randint(-300, 300)))]
        if c < .72: return [TAsg([Idx(cont(), pos()), Idx(cont(), pos())], Tup(val(), val()))]
        if c < .79: return [Tf(Var("u"), r.randint(0, size + 1)) if r.random() < .5 else Asg(Tf(Var("u"), r.randint(0, size + 1)), val())]
        if c < .86: return [MCall(Var("a"), "append", val())]
        if c < .9: return [MCall(cont(), "size")]
        if c < .96: return [std("new_buffer", Int(r.randint(0, 9)) if r.random() < .6 else r.choice([Null(), Str("1"), Int(-1), Flt(2048)]))]
        return [MCall(Var("a"), "clear")]
    body = [Decl("a", Arr(*[Int(10 + j) for j in range(size)])), Decl("b", std("new_buffer", Int(size))), Decl("u", Tup(*[Int(20 + j) for j in range(size)])), Decl("s", Str("abcdefghi"[:size]))]
    for _ in range(r.randint(4, 14)):
        body.append(t(std("catch_panic", Fn([], Blk(*op())))))
        if r.random() < .3: body.append(t(Var("a"), Var("b"), Var("u")))
    body.append(t(Var("a"), Var("b"), Var("u"), Var("s")))
    m = Module([FDecl("main", Fn(["x", "y"], Blk(*body)))], ["main"], [("std", "std"), ("h", "h")])
    return Program(id, {"m": m}, PRE + [["load", "v", "m", ""], ["export", "v", "m", "main", "main"], ["call", "v", "main", ["t", [["i", 0], ["null"]]]]])
