--------------------------------- MODULE Cpp ---------------------------------
(* C26: the C++ interface (include/tiropp).  A case is a list of operations on named handles of two machines; every operation has   *)
(* an observation: its text (a result or the error), the native objects destroyed and the callbacks invoked or destroyed during it.*)
(* The specification is the ownership discipline (handles, native objects, callbacks, tokens) together with what the operations do *)
(* to the values behind the handles.                                                                                                *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

Upd(f, x, y) == (x :> y) @@ f
Range1(f) == {f[x] : x \in DOMAIN f}
SetOfSeq(q) == {q[j] : j \in DOMAIN q}

(* ---- values: null, bool, int, float, str, type hold their text; everything else is a number of an object in s.h ---- *)
Null == [k |-> "null", t |-> "null"]
Ref(n) == [k |-> "o", n |-> n]
Whole(t) == [k |-> "int", t |-> t]
IsRef(v) == v.k = "o"
KindOf(s, v) == IF IsRef(v) THEN s.h[v.n].k ELSE v.k
KindName(k) == CASE k = "null" -> "NULL" [] k = "bool" -> "BOOLEAN" [] k = "int" -> "INTEGER" [] k = "float" -> "FLOAT" [] k = "str" -> "STRING" [] k = "buf" -> "BUFFER"
                 [] k = "fn" -> "FUNCTION" [] k = "tuple" -> "TUPLE" [] k = "rec" -> "RECORD" [] k = "schema" -> "RECORD_SCHEMA" [] k = "arr" -> "ARRAY" [] k = "result" -> "RESULT"
                 [] k = "exc" -> "EXCEPTION" [] k = "coro" -> "COROUTINE" [] k = "mod" -> "MODULE" [] k = "nat" -> "NATIVE" [] k = "type" -> "TYPE"
TypeName(k) == CASE k = "null" -> "Null" [] k = "bool" -> "Boolean" [] k = "int" -> "Integer" [] k = "float" -> "Float" [] k = "str" -> "String" [] k = "buf" -> "Buffer"
                 [] k = "fn" -> "Function" [] k = "tuple" -> "Tuple" [] k = "rec" -> "Record" [] k = "schema" -> "RecordSchema" [] k = "arr" -> "Array" [] k = "result" -> "Result"
                 [] k = "exc" -> "Exception" [] k = "coro" -> "Coroutine" [] k = "mod" -> "Module" [] k = "type" -> "Type" [] k = "nat" -> "NativeObject"

RECURSIVE Glue(_)
Glue(ts) == IF ts = <<>> THEN "" ELSE ts[1] \o Glue(Tail(ts))
Names(n) == IF n = 1 THEN "A" ELSE "B"
(* the description of a value, as the driver writes it *)
RECURSIVE Show(_, _, _)
Show(s, v, d) ==
    IF d < 0 THEN "..."
    ELSE IF ~IsRef(v) THEN CASE v.k = "int" -> "i" \o v.t [] v.k = "float" -> "f" \o v.t [] v.k = "str" -> "s:" \o v.t [] v.k = "type" -> "type " \o v.t [] OTHER -> v.t
    ELSE LET x == s.h[v.n]  Sub(y) == Show(s, y, d - 1) IN
         CASE x.k = "buf" -> "buffer " \o ToString(Len(x.b)) \o Glue([j \in DOMAIN x.b |-> " " \o ToString(x.b[j])])
           [] x.k = "tuple" -> "(" \o Glue([j \in DOMAIN x.e |-> Sub(x.e[j]) \o ", "]) \o ")"
           [] x.k = "arr" -> "[" \o Glue([j \in DOMAIN x.e |-> Sub(x.e[j]) \o ", "]) \o "]"
           [] x.k = "rec" -> "{" \o Glue([j \in DOMAIN x.keys |-> x.keys[j] \o ": " \o Sub(x.f[x.keys[j]]) \o ", "]) \o "}"
           [] x.k = "result" -> (IF x.ok THEN "ok " ELSE "fail ") \o Sub(x.v)
           [] x.k = "exc" -> "exception " \o x.m
           [] x.k = "coro" -> "coroutine" \o (IF x.st = "new" THEN "" ELSE " started") \o (IF x.st = "done" THEN " completed" ELSE "")
           [] x.k = "fn" -> "function" [] x.k = "mod" -> "module" [] x.k = "schema" -> "schema"
           [] x.k = "nat" -> "native " \o Names(x.t) \o (IF x.id \in s.dead THEN " destroyed" ELSE " " \o ToString(x.id))

(* ---- reachability ---- *)
(* most: everything a coroutine was ever given counts as held by it; otherwise only what it still needs *)
Edges(s, n, most) ==
    LET x == s.h[n]
        vs == CASE x.k \in {"tuple", "arr"} -> SetOfSeq(x.e)
                [] x.k = "rec" -> {x.f[q] : q \in DOMAIN x.f}
                [] x.k \in {"result", "fn"} -> {x.v}
                [] x.k = "mod" -> {x.f[q] : q \in DOMAIN x.f}
                [] x.k = "coro" -> IF most THEN SetOfSeq(x.seen) \cup {x.fn, x.r} \cup SetOfSeq(x.args)
                                   ELSE CASE x.st = "done" -> {x.r} [] x.st \in {"new", "ready"} -> {x.fn} \cup SetOfSeq(x.args) [] OTHER -> {x.r}
                [] OTHER -> {}
    IN {v.n : v \in {u \in vs : IsRef(u)}}
RECURSIVE Closure(_, _, _, _)
Closure(s, seen, todo, most) == IF todo = {} THEN seen
                                ELSE LET next == UNION {Edges(s, n, most) : n \in todo} \ (seen \cup todo) IN Closure(s, seen \cup todo, next, most)
Roots(s) == {s.sl[n].v.n : n \in {m \in DOMAIN s.sl : s.sl[m].ok /\ IsRef(s.sl[m].v)}}
            \cup {s.tk[j].c : j \in {q \in DOMAIN s.tk : s.tk[q].held}} \cup UNION {SetOfSeq(s.q[v]) : v \in 1..2}
            \cup UNION {Range1(s.mods[v]) : v \in 1..2}
Live(s, most) == Closure(s, {}, Roots(s), most)

(* ---- coroutines ---- *)
New(s, x) == [s EXCEPT !.h = Append(@, x)]
Last1(s) == Ref(Len(s.h))
OutOfBounds == "tiro::error: ERROR_OUT_OF_BOUNDS"
Panics(s, m) == [s |-> s, w |-> "panic", m |-> m, fs |-> <<>>]
Returns(s, v) == [s |-> s, w |-> "ret", v |-> v, fs |-> <<>>]
CastText(s, k, v) == "expected a value of kind " \o KindName(k) \o " but encountered a " \o KindName(KindOf(s, v))
BadCast(s, k, v) == Panics(s, "Bad handle cast (" \o CastText(s, k, v) \o ")")
NotMixed == "Handles that belong to different virtual machines must not be mixed"
(* a call returns, panics or waits for a token (fs: the frames waiting for the result, innermost last); c the coroutine, m the machine *)
RECURSIVE Call(_, _, _, _, _)
Back(s, f, v) == CASE f.b = "r2" -> Returns(s, v) [] f.b = "r9" -> Returns(s, f.v)
                   [] f.b = "r4" -> LET t == New(s, [k |-> "result", ok |-> TRUE, v |-> v]) IN Returns(t, Last1(t))
Through(r, f) == CASE r.w = "ret" -> Back(r.s, f, r.v) [] r.w = "panic" -> r [] r.w = "wait" -> [r EXCEPT !.fs = <<f>> \o @]
Call(s, c, m, fn, args) ==
    LET x == s.h[fn.n]  n == Len(args)  cl == x.v
        Arg(j, F(_)) == IF j > n THEN Panics(s, OutOfBounds) ELSE F(args[j])
        Fun(v, F(_)) == IF KindOf(s, v) # "fn" THEN BadCast(s, "fn", v) ELSE F(v)
    IN
    IF x.b = "id" THEN IF n = 1 THEN Returns(s, args[1]) ELSE Panics(s, "other")
    ELSE IF x.b = "wrap" THEN IF n = 1 THEN LET t == New(s, [k |-> "arr", e |-> args]) IN Returns(t, Last1(t)) ELSE Panics(s, "other")
    ELSE IF n < x.argc THEN Panics(s, "other")
    ELSE CASE x.b \in {"s0", "a0", "r0"} -> Returns(s, cl)
           [] x.b \in {"s1", "a1", "r1"} -> Arg(1, LAMBDA v : Returns(s, v))
           [] x.b \in {"s2", "a2", "r3", "a6"} -> Panics(s, "boom")
           [] x.b \in {"s3", "a3"} -> Panics(s, "unknown exception")
           [] x.b \in {"s4", "a4", "r8"} -> Panics(s, "Invalid handle")
           [] x.b \in {"s5", "a8"} -> Panics(s, NotMixed)
           [] x.b = "s6" -> Arg(1, LAMBDA v : IF KindOf(s, v) # "int" THEN BadCast(s, "int", v) ELSE Returns(s, v))
           [] x.b \in {"s7", "a9"} -> Returns(s, Whole(ToString(n)))
           [] x.b = "s8" -> Panics(s, OutOfBounds)
           [] x.b = "a5" -> [s |-> [s EXCEPT !.tk = Append(@, [c |-> c, vm |-> m, used |-> FALSE, held |-> TRUE, there |-> TRUE])], w |-> "wait", fs |-> <<>>]
           [] x.b \in {"a7", "r6"} -> Panics(s, "stop")
           [] x.b = "r2" -> Arg(1, LAMBDA v : Fun(v, LAMBDA f : Through(Call(s, c, m, f, <<>>), [b |-> "r2"])))
           [] x.b = "r4" -> Arg(1, LAMBDA v : Fun(v, LAMBDA f : Arg(2, LAMBDA a : IF KindOf(s, a) # "tuple" THEN BadCast(s, "tuple", a)
                                                                                ELSE Through(Call(s, c, m, f, s.h[a.n].e), [b |-> "r4"]))))
           [] x.b \in {"a10", "a11"} -> LET t == [s EXCEPT !.tk = Append(@, [c |-> c, vm |-> m, used |-> TRUE, held |-> TRUE, there |-> TRUE])]
                                     IN IF x.b = "a10" THEN Returns(t, cl) ELSE Panics(t, "boom")
           [] x.b = "r10" -> Panics(s, "boom")
           [] x.b = "r11" -> Arg(1, LAMBDA v : Fun(v, LAMBDA f : Panics(s, "boom")))
           [] x.b = "r12" -> Returns(s, cl)
           [] x.b = "r13" -> Arg(1, LAMBDA v : Fun(v, LAMBDA f : Returns(s, cl)))
           [] x.b = "r5" -> Returns(s, Null)
           [] x.b = "r7" -> Returns(s, Whole(ToString(200 + n)))
           [] x.b = "r9" -> Arg(2, LAMBDA a : Arg(1, LAMBDA v : Fun(v, LAMBDA f : Through(Call(s, c, m, f, <<>>), [b |-> "r9", v |-> a]))))
RECURSIVE Unwind(_)
(* the result of an inner call reaches the waiting frames *)
Unwind(r) == IF r.w # "ret" \/ r.fs = <<>> THEN r
             ELSE LET f == r.fs[Len(r.fs)]  b == Back(r.s, f, r.v) IN Unwind([b EXCEPT !.fs = SubSeq(r.fs, 1, Len(r.fs) - 1)])

(* the coroutine c finishes: its callback runs and is destroyed *)
Finish(s, c, v) ==
    LET t == [s EXCEPT !.h[c].st = "done", !.h[c].r = v]
        cbs == {b \in DOMAIN s.cb : s.cb[b] = [co |-> c, st |-> "armed"]}
    IN IF cbs = {} THEN t
       ELSE LET b == CHOOSE b \in cbs : TRUE IN
            [t EXCEPT !.cb[b].st = "gone", !.ev = @ \o <<"call " \o ToString(b) \o " " \o Show(t, v, 3), "drop " \o ToString(b)>>]
Continue(s, c, r) ==
    IF r.w = "wait" THEN [r.s EXCEPT !.h[c].st = "wait", !.h[c].fs = r.fs]
    ELSE IF r.w = "ret" THEN LET t == New(r.s, [k |-> "result", ok |-> TRUE, v |-> r.v]) IN Finish(t, c, Last1(t))
    ELSE LET t == New(r.s, [k |-> "exc", m |-> r.m])  u == New(t, [k |-> "result", ok |-> FALSE, v |-> Last1(t)]) IN Finish(u, c, Last1(u))
RECURSIVE RunAll(_, _)
RunAll(s, m) ==
    IF s.q[m] = <<>> THEN s
    ELSE LET c == s.q[m][1]  x == s.h[c]  t == [s EXCEPT !.q[m] = Tail(@)] IN
         RunAll(CASE x.st = "ready" -> Continue(t, c, Call(t, c, m, x.fn, x.args))
                  [] x.st = "back" -> Continue(t, c, Unwind([s |-> t, w |-> "ret", v |-> x.r, fs |-> x.fs]))
                  [] x.st = "thrown" -> Continue(t, c, Panics(t, "stop")), m)

(* ---- operations ---- *)
(* the outcome: the state, the text, and the native objects that are certainly destroyed *)
R(s, o) == [s |-> s, o |-> o, d |-> {}]
Done(s) == R(s, "done")
Api(s, e) == R(s, "api ERROR_" \o e)
Check(s, e) == R(s, "check " \o e)
Put(s, d, m, v) == Done([s EXCEPT !.sl = Upd(@, d, [ok |-> TRUE, vm |-> m, v |-> v])])
PutNew(s, d, m, x) == LET t == New(s, x) IN Put(t, d, m, Last1(t))
(* handles that must be valid and belong to machine m *)
Checked(s, m, ns, G) ==
    IF \E j \in DOMAIN ns : s.sl[ns[j]].vm # m THEN Check(s, NotMixed)
    ELSE IF \E j \in DOMAIN ns : ~s.sl[ns[j]].ok THEN Check(s, "Invalid handle") ELSE G
(* conversions of the handle n to kind k *)
Cast(s, n, k, G) == IF ~s.sl[n].ok THEN Check(s, "Invalid handle")
                    ELSE IF KindOf(s, s.sl[n].v) # k THEN R(s, "cast " \o CastText(s, k, s.sl[n].v)) ELSE G
Bool(b) == IF b THEN "true" ELSE "false"
Zeros(n) == [j \in 1..n |-> 0]
Make(op) == CASE op[4] = "null" -> Null [] op[4] = "bool" -> [k |-> "bool", t |-> Bool(op[5])] [] op[4] \in {"int", "float", "str"} -> [k |-> op[4], t |-> op[5]]
MakeObj(op) == CASE op[4] = "tuple" -> [k |-> "tuple", e |-> [j \in 1..op[5] |-> Null]] [] op[4] = "arr" -> [k |-> "arr", e |-> <<>>] [] op[4] = "buf" -> [k |-> "buf", b |-> Zeros(op[5])]
Gone(s) == {x.id : x \in {s.h[n] : n \in {m \in DOMAIN s.h : s.h[m].k = "nat"}}}
Orphan(s, c) == [b \in DOMAIN s.cb |-> IF s.cb[b] = [co |-> c, st |-> "armed"] THEN [co |-> c, st |-> "orphan"] ELSE s.cb[b]]
Drop(r, b) == [r EXCEPT !.s.ev = Append(@, "drop " \o ToString(b)), !.s.cb = Upd(@, b, [co |-> 0, st |-> "gone"])]
Coro(f, args, m) == [k |-> "coro", st |-> "new", fn |-> f, args |-> args, r |-> Null, fs |-> <<>>, seen |-> args, vm |-> m]
Args(s, v) == IF IsRef(v) THEN s.h[v.n].e ELSE <<>>
InvalidType == "error This native_type is no longer valid."
WithNative(s, op, G(_)) ==
    Cast(s, op[3], "nat", IF ~s.ty[op[2] + 1] THEN R(s, InvalidType) ELSE G(s.h[s.sl[op[3]].v.n]))
OfType(s, op, x, r) == IF x.t # op[2] + 1 THEN R(s, "error The object is not an instance of this type.") ELSE r
CompileText(mode) ==
    CASE mode = "ok" -> "false api ERROR_BAD_STATE done silent true true api ERROR_BAD_STATE api ERROR_BAD_STATE done "
      [] mode = "bad" -> "false api ERROR_BAD_STATE api ERROR_BAD_SOURCE messages true false api ERROR_BAD_STATE api ERROR_BAD_STATE api ERROR_BAD_STATE "
      [] mode \in {"throw", "warn"} -> "false api ERROR_BAD_STATE exception boom messages 1 false api ERROR_BAD_STATE api ERROR_BAD_STATE api ERROR_BAD_STATE "
      [] mode = "throwint" -> "false api ERROR_BAD_STATE unknown exception messages 1 false api ERROR_BAD_STATE api ERROR_BAD_STATE api ERROR_BAD_STATE "
      [] mode = "attach" -> "false api ERROR_BAD_STATE done silent true true done true done true done true done true api ERROR_BAD_STATE api ERROR_BAD_STATE done "
      [] mode = "move" -> "false api ERROR_BAD_STATE done true"
      [] OTHER -> "*"

Do(s, op) ==
    LET o == op[1]
        At(j) == s.sl[op[j]]   V(j) == At(j).v   Obj(j) == s.h[V(j).n]
        Machine(j) == op[j] + 1
    IN
    CASE o = "new" -> Put(s, op[2], Machine(3), Null)
      [] o = "mk" -> IF op[4] \in {"null", "bool", "int", "float", "str"} THEN Put(s, op[2], Machine(3), Make(op)) ELSE PutNew(s, op[2], Machine(3), MakeObj(op))
      [] o \in {"ok", "fail"} -> Checked(s, Machine(3), <<op[4]>>, PutNew(s, op[2], Machine(3), [k |-> "result", ok |-> o = "ok", v |-> V(4)]))
      [] o = "schema" -> Cast(s, op[4], "arr", Checked(s, Machine(3), <<op[4]>>,
                           IF \E v \in SetOfSeq(Obj(4).e) : v.k # "str" THEN Api(s, "BAD_TYPE")
                           ELSE PutNew(s, op[2], Machine(3), [k |-> "schema", keys |-> [j \in DOMAIN Obj(4).e |-> Obj(4).e[j].t]])))
      [] o = "rec" -> Cast(s, op[4], "schema", Checked(s, Machine(3), <<op[4]>>,
                           PutNew(s, op[2], Machine(3), [k |-> "rec", keys |-> Obj(4).keys, f |-> [q \in SetOfSeq(Obj(4).keys) |-> Null]])))
      [] o = "nat" -> IF ~s.ty[op[4] + 1] THEN [R([s EXCEPT !.dead = @ \cup {op[5]}], InvalidType) EXCEPT !.d = {op[5]}]
                      ELSE PutNew(s, op[2], Machine(3), [k |-> "nat", t |-> op[4] + 1, id |-> op[5]])
      [] o \in {"copy", "assign"} -> Done([s EXCEPT !.sl = Upd(@, op[2], At(3))])
      [] o \in {"move", "massign"} -> IF op[2] = op[3] THEN Done(s) ELSE LET old == At(3) IN Done([s EXCEPT !.sl = Upd(Upd(@, op[3], [old EXCEPT !.ok = FALSE]), op[2], old)])
      [] o = "drop" -> Done([s EXCEPT !.sl = [n \in DOMAIN s.sl \ {op[2]} |-> s.sl[n]]])
      [] o = "valid" -> R(s, Bool(At(2).ok) \o (IF At(2).vm = 1 THEN " 0" ELSE " 1"))
      [] o = "kind" -> Checked(s, At(2).vm, <<op[2]>>, R(s, KindName(KindOf(s, V(2)))))
      [] o = "is" -> Checked(s, At(2).vm, <<op[2]>>, R(s, Bool(KindOf(s, V(2)) = op[3])))
      [] o = "as" -> Cast(s, op[3], op[4], Done([s EXCEPT !.sl = Upd(@, op[2], At(3))]))
      [] o = "asm" -> LET old == At(3)  t == [s EXCEPT !.sl = Upd(@, op[3], [old EXCEPT !.ok = FALSE])] IN
                      IF ~old.ok THEN Check(s, "Invalid handle")
                      ELSE IF KindOf(s, old.v) # op[4] THEN R(t, "cast " \o CastText(s, op[4], old.v))
                      ELSE Done([t EXCEPT !.sl = Upd(@, op[2], old)])
      [] o = "same" -> Checked(s, Machine(2), <<op[3], op[4]>>,
                           IF V(3).k # V(4).k THEN R(s, "false") ELSE IF IsRef(V(3)) \/ V(3).k \in {"null", "bool", "type"} THEN R(s, Bool(V(3) = V(4))) ELSE R(s, "*"))
      [] o = "typeof" -> Checked(s, At(3).vm, <<op[3]>>, LET k == KindOf(s, V(3)) IN Put(s, op[2], At(3).vm, [k |-> "type", t |-> TypeName(k)]))
      [] o = "tyname" -> Cast(s, op[2], "type", R(s, V(2).t))
      [] o = "str" -> Checked(s, At(3).vm, <<op[3]>>, IF V(3).k \in {"null", "bool", "int", "str"} THEN Put(s, op[2], At(3).vm, [k |-> "str", t |-> V(3).t]) ELSE R(s, "skipped"))
      [] o = "show" -> R(s, IF At(2).ok THEN Show(s, V(2), 3) ELSE "invalid")
      [] o = "size" -> Cast(s, op[2], op[3], R(s, ToString(Len(IF op[3] = "buf" THEN Obj(2).b ELSE Obj(2).e))))
      [] o = "get" -> Cast(s, op[3], op[4], IF op[5] >= Len(Obj(3).e) THEN Api(s, "OUT_OF_BOUNDS") ELSE Put(s, op[2], At(3).vm, Obj(3).e[op[5] + 1]))
      [] o = "set" -> Cast(s, op[2], op[3], Checked(s, At(2).vm, <<op[5]>>,
                           IF op[4] >= Len(Obj(2).e) THEN Api(s, "OUT_OF_BOUNDS") ELSE Done([s EXCEPT !.h[V(2).n].e[op[4] + 1] = V(5)])))
      [] o = "push" -> Cast(s, op[2], "arr", Checked(s, At(2).vm, <<op[3]>>, Done([s EXCEPT !.h[V(2).n].e = Append(@, V(3))])))
      [] o = "pop" -> Cast(s, op[2], "arr", IF Obj(2).e = <<>> THEN Api(s, "OUT_OF_BOUNDS") ELSE Done([s EXCEPT !.h[V(2).n].e = SubSeq(@, 1, Len(@) - 1)]))
      [] o = "clear" -> Cast(s, op[2], "arr", Done([s EXCEPT !.h[V(2).n].e = <<>>]))
      [] o = "bset" -> Cast(s, op[2], "buf", R([s EXCEPT !.h[V(2).n].b[op[3] + 1] = op[4]], "true"))
      [] o = "rget" -> Cast(s, op[3], "rec", Cast(s, op[4], "str", Checked(s, At(3).vm, <<op[4]>>,
                           IF V(4).t \notin DOMAIN Obj(3).f THEN Api(s, "BAD_KEY") ELSE Put(s, op[2], At(3).vm, Obj(3).f[V(4).t]))))
      [] o = "rset" -> Cast(s, op[2], "rec", Cast(s, op[3], "str", Checked(s, At(2).vm, <<op[3], op[4]>>,
                           IF V(3).t \notin DOMAIN Obj(2).f THEN Api(s, "BAD_KEY") ELSE Done([s EXCEPT !.h[V(2).n].f[V(3).t] = V(4)]))))
      [] o = "keys" -> Cast(s, op[2], "rec", R(s, Glue([j \in DOMAIN Obj(2).keys |-> Obj(2).keys[j] \o " "])))
      [] o \in {"rval", "rerr"} -> Cast(s, op[3], "result", IF Obj(3).ok # (o = "rval") THEN Api(s, "BAD_STATE") ELSE Put(s, op[2], At(3).vm, Obj(3).v))
      [] o = "isok" -> Cast(s, op[2], "result", R(s, IF Obj(2).ok THEN "true false" ELSE "false true"))
      [] o = "exmsg" -> Cast(s, op[2], "exc", R(s, Obj(2).m))
      [] o = "acc" -> WithNative(s, op, LAMBDA x : OfType(s, op, x, R(s, IF x.id \in s.dead THEN "error The object was already destroyed." ELSE ToString(x.id))))
      [] o = "isdes" -> WithNative(s, op, LAMBDA x : OfType(s, op, x, R(s, Bool(x.id \in s.dead))))
      [] o = "inst" -> WithNative(s, op, LAMBDA x : R(s, Bool(x.t = op[2] + 1)))
      [] o = "des" -> WithNative(s, op, LAMBDA x : OfType(s, op, x, IF x.id \in s.dead THEN Done(s) ELSE [Done([s EXCEPT !.dead = @ \cup {x.id}]) EXCEPT !.d = {x.id}]))
      [] o = "tname" -> R(s, IF s.ty[op[2] + 1] THEN (IF s.twin THEN "A" ELSE Names(op[2] + 1)) ELSE InvalidType)
      [] o = "twin" -> Done([s EXCEPT !.twin = TRUE])
      [] o = "tmove" -> R([s EXCEPT !.ty[op[2] + 1] = ~@], Bool(~s.ty[op[2] + 1]))
      [] o = "fn" -> Cast(s, op[7], "str", Checked(s, Machine(3), <<op[7], op[6]>>, PutNew(s, op[2], Machine(3), [k |-> "fn", b |-> op[4], argc |-> op[5], v |-> V(6)])))
      [] o = "co" -> Cast(s, op[4], "fn", IF op[5] = "-" THEN Checked(s, Machine(3), <<op[4]>>, PutNew(s, op[2], Machine(3), Coro(V(4), <<>>, Machine(3))))
                           ELSE Checked(s, Machine(3), <<op[4], op[5]>>,
                                    IF KindOf(s, V(5)) \notin {"tuple", "null"} THEN Api(s, "BAD_TYPE") ELSE PutNew(s, op[2], Machine(3), [Coro(V(4), Args(s, V(5)), Machine(3)) EXCEPT !.seen = Append(@, V(5))])))
      [] o = "cb" -> Cast(s, op[2], "coro", Done([s EXCEPT !.cb = Upd(Orphan(s, V(2).n), op[3], [co |-> V(2).n, st |-> "armed"])]))
      [] o = "start" -> Cast(s, op[2], "coro", IF Obj(2).st # "new" THEN Api(s, "BAD_STATE") ELSE Done([s EXCEPT !.h[V(2).n].st = "ready", !.q[Obj(2).vm] = Append(@, V(2).n)]))
      [] o = "started" -> Cast(s, op[2], "coro", R(s, Bool(Obj(2).st # "new")))
      [] o = "completed" -> Cast(s, op[2], "coro", R(s, Bool(Obj(2).st = "done")))
      [] o = "result" -> Cast(s, op[3], "coro", IF Obj(3).st # "done" THEN Api(s, "BAD_STATE") ELSE Put(s, op[2], At(3).vm, Obj(3).r))
      [] o = "async" -> LET m == Machine(2)  b == op[5]
                            Started(args, seen) == LET t == New(s, [Coro(V(3), args, m) EXCEPT !.seen = seen, !.st = "ready"])  c == Len(t.h) IN
                                             Done([t EXCEPT !.cb = Upd(@, b, [co |-> c, st |-> "armed"]), !.q[m] = Append(@, c)])
                            r == IF op[4] = "-" THEN Checked(s, m, <<op[3]>>, Started(<<>>, <<>>))
                                 ELSE Checked(s, m, <<op[3], op[4]>>, IF KindOf(s, V(4)) \notin {"tuple", "null"} THEN Api(s, "BAD_TYPE") ELSE Started(Args(s, V(4)), Append(Args(s, V(4)), V(4))))
                        IN Cast(s, op[3], "fn", IF r.o = "done" THEN r ELSE Drop(r, b))
      [] o = "run" -> Done(RunAll(s, Machine(2)))
      [] o = "ready" -> R(s, Bool(s.q[Machine(2)] # <<>>))
      [] o = "tokassign" -> IF \E j \in {2, 3} : op[j] > Len(s.tk) \/ ~s.tk[op[j]].there THEN R(s, "no token")
                            ELSE IF op[2] = op[3] THEN Done(s)
                            ELSE LET old == s.tk[op[3]] IN Done([s EXCEPT !.tk = [@ EXCEPT ![op[2]] = old, ![op[3]] = [old EXCEPT !.held = FALSE]]])
      [] o \in {"tokret", "tokpanic", "tokdrop", "tokmove"} ->
             IF op[2] > Len(s.tk) \/ ~s.tk[op[2]].there THEN R(s, "no token")
             ELSE LET tok == s.tk[op[2]]
                      Resume(st, v) == Done([s EXCEPT !.tk[op[2]].used = TRUE, !.h[tok.c].st = st, !.h[tok.c].r = v, !.h[tok.c].seen = Append(@, v), !.q[tok.vm] = Append(@, tok.c)])
                  IN (CASE o = "tokdrop" -> Done([s EXCEPT !.tk[op[2]].there = FALSE, !.tk[op[2]].held = FALSE])
                       [] o = "tokmove" -> Done(s)
                       [] o = "tokret" -> Checked(s, tok.vm, <<op[3]>>, IF ~tok.held THEN Api(s, "BAD_ARG") ELSE IF tok.used THEN Api(s, "INTERNAL") ELSE Resume("back", V(3)))
                       [] o = "tokpanic" -> IF ~tok.held THEN Api(s, "BAD_ARG") ELSE IF tok.used THEN Api(s, "INTERNAL") ELSE Resume("thrown", Null))
      [] o = "mod" -> IF \E j \in DOMAIN op[5] : ~s.sl[op[5][j][2]].ok THEN Api(s, "BAD_ARG")
                      ELSE PutNew(s, op[2], Machine(3), [k |-> "mod", name |-> op[4], f |-> [q \in {op[5][j][1] : j \in DOMAIN op[5]} |-> s.sl[op[5][CHOOSE j \in DOMAIN op[5] : op[5][j][1] = q][2]].v]])
      [] o = "mload" -> Cast(s, op[3], "mod", Checked(s, Machine(2), <<op[3]>>,
                           IF Obj(3).name \in DOMAIN s.mods[Machine(2)] THEN Api(s, "MODULE_EXISTS") ELSE Done([s EXCEPT !.mods[Machine(2)] = Upd(@, Obj(3).name, V(3).n)])))
      [] o = "mget" -> Cast(s, op[3], "mod", IF op[4] \notin DOMAIN Obj(3).f THEN Api(s, "EXPORT_NOT_FOUND") ELSE Put(s, op[2], At(3).vm, Obj(3).f[op[4]]))
      [] o = "export" -> LET m == Machine(3)  ms == s.mods[m]
                             (* a module of scripts is initialized before its first use, after the coroutines that are ready already *)
                             t == IF op[4] = "lib" /\ ~s.init[m] THEN [RunAll(s, m) EXCEPT !.init[m] = TRUE] ELSE s IN
                         IF op[4] \notin DOMAIN ms THEN Api(s, "MODULE_NOT_FOUND")
                         ELSE IF op[5] \notin DOMAIN t.h[ms[op[4]]].f THEN Api(t, "EXPORT_NOT_FOUND") ELSE Put(t, op[2], m, t.h[ms[op[4]]].f[op[5]])
      [] o = "load" -> LET m == Machine(2)  t == New(New(s, [k |-> "fn", b |-> "id", v |-> Null]), [k |-> "fn", b |-> "wrap", v |-> Null])  n == Len(t.h)
                           u == New(t, [k |-> "mod", name |-> "lib", f |-> [id |-> Ref(n - 1), wrap |-> Ref(n), seven |-> Whole("7")]]) IN
                       IF "lib" \in DOMAIN s.mods[m] THEN Api(s, "MODULE_EXISTS") ELSE Done([u EXCEPT !.mods[m] = Upd(@, "lib", Len(u.h))])
      [] o = "compile" -> R(s, CompileText(op[2]))
      [] o = "settings" -> R(s, ToString(op[2]) \o " " \o ToString(op[3]) \o " true ok null a 1%0a")
      [] o \in {"gc", "end"} -> Done(s)

(* ---- observations ---- *)
Natives(s) == {n \in DOMAIN s.h : s.h[n].k = "nat"}
IdsOf(s, ns) == {s.h[n].id : n \in ns}
(* what a collection may destroy in a state, and what it must *)
May(s) == IdsOf(s, Natives(s) \ Live(s, FALSE)) \ s.dead
Must(s) == IdsOf(s, Natives(s) \ Live(s, TRUE)) \ s.dead
Dropped(b) == "drop " \o ToString(b)
MayDrop(s) == {b \in DOMAIN s.cb : s.cb[b].st = "orphan" \/ (s.cb[b].st = "armed" /\ s.cb[b].co \notin Live(s, FALSE))}
MustDrop(s) == {b \in DOMAIN s.cb : s.cb[b].st = "orphan" \/ (s.cb[b].st = "armed" /\ s.cb[b].co \notin Live(s, TRUE))}
AllNatives(s) == IdsOf(s, Natives(s)) \ s.dead
AllCallbacks(s) == {b \in DOMAIN s.cb : s.cb[b].st # "gone"}
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Distinct(q) == Cardinality(SetOfSeq(q)) = Len(q)

(* a request for memory was refused: the operation fails and changes nothing; the object or the callback it was given is destroyed *)
Refused(s, op) == LET r == Api(s, "ALLOC") IN
    CASE op[1] = "nat" -> [R([s EXCEPT !.dead = @ \cup {op[5]}], "api ERROR_ALLOC") EXCEPT !.d = {op[5]}]
      [] op[1] = "cb" -> Drop(r, op[3]) [] op[1] = "async" -> Drop(r, op[5]) [] OTHER -> r
Outcome(s, op, seen) ==
    IF op[1] # "fault" THEN Do(s, op)
    ELSE IF Starts(seen.o, "fired ") THEN LET r == Refused(s, op[3]) IN [r EXCEPT !.o = "fired " \o @]
    ELSE LET r == Do(s, op[3]) IN [r EXCEPT !.o = IF @ = "*" THEN "*" ELSE "not fired " \o @]

(* one observation: "" or what is wrong with it, and the state afterwards *)
Judge(s, op, seen) ==
    LET r == Outcome([s EXCEPT !.ev = <<>>], op, seen)  t == r.s
        d == SetOfSeq(seen.d)
        exp == t.ev
        extra == SelectSeq(seen.c, LAMBDA e : e \notin SetOfSeq(exp))
        mine == SelectSeq(seen.c, LAMBDA e : e \in SetOfSeq(exp))
        last == op[1] = "end"
        surplus == d \ r.d
        drops == {b \in DOMAIN t.cb : Dropped(b) \in SetOfSeq(extra)}
        mayd == IF last THEN AllNatives(s) ELSE IF surplus = {} THEN {} ELSE May(s) \cup May(t)
        mustd == IF last THEN AllNatives(s) ELSE IF op[1] = "gc" THEN {id \in Must(t) : \E n \in Natives(t) : t.h[n].id = id /\ s.vmof[n] = op[2] + 1} ELSE {}
        maydr == IF last THEN AllCallbacks(s) ELSE IF drops = {} THEN {} ELSE MayDrop(s) \cup MayDrop(t)
        mustdr == IF last THEN AllCallbacks(s) ELSE IF op[1] = "gc" THEN {b \in MustDrop(t) : t.h[t.cb[b].co].vm = op[2] + 1} ELSE {}
        bad == IF r.o # "*" /\ r.o # seen.o THEN "expected " \o r.o \o " but got " \o seen.o
               ELSE IF ~Distinct(seen.d) THEN "an object was destroyed twice"
               ELSE IF ~(r.d \subseteq d) THEN "an object was not destroyed"
               ELSE IF ~(surplus \subseteq mayd) THEN "an object was destroyed that is still in use"
               ELSE IF ~(mustd \subseteq d) THEN "an object was not destroyed"
               ELSE IF ~Distinct(seen.c) \/ mine # exp THEN "callbacks: expected " \o Glue(exp) \o " but got " \o Glue(seen.c)
               ELSE IF {Dropped(b) : b \in drops} # SetOfSeq(extra) \/ ~(drops \subseteq maydr) THEN "an unexpected callback event: " \o Glue(extra)
               ELSE IF ~(mustdr \subseteq drops) THEN "a callback was not destroyed"
               ELSE ""
        u == [t EXCEPT !.dead = @ \cup d, !.cb = [b \in DOMAIN t.cb |-> IF b \in drops THEN [t.cb[b] EXCEPT !.st = "gone"] ELSE t.cb[b]]]
        (* the machine of every native object: that of the operation which made it *)
        v == [u EXCEPT !.vmof = IF Len(u.h) > Len(s.h) THEN [n \in DOMAIN u.h |-> IF n <= Len(s.h) THEN s.vmof[n] ELSE IF op[1] = "nat" THEN op[3] + 1 ELSE IF op[1] = "fault" /\ op[3][1] = "nat" THEN op[3][3] + 1 ELSE 0] ELSE @]
    IN [s |-> v, bad |-> bad]

Start == [sl |-> [n \in {} |-> Null], h |-> <<>>, vmof |-> <<>>, q |-> <<<<>>, <<>>>>, tk |-> <<>>, cb |-> [n \in {} |-> Null], dead |-> {}, ty |-> <<TRUE, TRUE>>, twin |-> FALSE, init |-> <<FALSE, FALSE>>,
          mods |-> <<[n \in {} |-> 0], [n \in {} |-> 0]>>, ev |-> <<>>]
RECURSIVE Replay(_, _, _)
Replay(c, n, s) ==
    IF n > Len(c.ops) THEN ""
    ELSE IF n > Len(c.r) THEN "no observation of operation " \o ToString(n)
    ELSE LET j == Judge(s, c.ops[n], c.r[n]) IN
         IF j.bad # "" THEN "operation " \o ToString(n) \o " (" \o c.ops[n][1] \o "): " \o j.bad ELSE Replay(c, n + 1, j.s)

Report(c) == LET b == Replay(c, 1, Start) IN b = "" \/ PrintT("BAD|" \o c.id \o "|" \o b)
Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == Report(Cases[i])
=============================================================================
