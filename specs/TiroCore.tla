------------------------------ MODULE TiroCore ------------------------------
(***************************************************************************)
(* The observable semantics of the Tiro language and its virtual machine:  *)
(* an explicit state machine over (control, continuation, variable store,  *)
(* object heap, coroutines, ready queue, modules, host).  It is written    *)
(* from the language's documentation and the public C interface: abstract  *)
(* syntax is evaluated directly, so nothing of the compiler (IR, constant  *)
(* folding, register allocation, bytecode) exists here.                    *)
(*                                                                         *)
(* A machine state is one record m.  Step(m) is the transition function;   *)
(* everything a host can observe is appended to m.out.  Host commands are  *)
(* the operations of the public interface (load, call, start, run, ...).   *)
(* The module is bound to the implementation by TiroTrace.tla, and it is   *)
(* explored with a nondeterministic host by TiroMC.tla.                    *)
(*                                                                         *)
(*  m.ctl   control: <<"ev",node,env>> evaluate, <<"rt",v>> return a value,*)
(*          <<"pn",ex>> panic, <<"uw",kind,v>> leave scopes (ret/brk/cont),*)
(*          <<"sched">> pick the next ready coroutine, <<"done">>          *)
(*  m.k     continuation, a linked stack of frames <<frame, rest>>         *)
(*  m.st    variable cells          m.hp   heap objects                    *)
(*  m.cos   coroutines              m.rq   ready queue (coroutine ids)     *)
(*  m.cur   running coroutine or 0  m.run  the run loop is active          *)
(*  m.hk    host continuation while the run loop is active                 *)
(*  m.regs  host handles            m.toks host resume tokens              *)
(*  m.mods  loaded modules          m.nats native functions                *)
(*  m.out   observations            m.ab   reason to give up, or ""        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Progs == TLCGet(1)  \* sequence of programs [nodes, mods, cmds, ...], set once by the module that extends this one

Nul == <<"null">>
None == <<"none">>          \* absence of a value (statements)
Undef == <<"undef">>        \* variable not initialised yet
Limit == 1000000000         \* integers stay below this bound, larger results are left to Arith.tla
ERR == "*"                  \* message of a run time error (its exact text is not specified)
FS == 1024                  \* floats are multiples of 1/FS in this model

Node(m, id) == Progs[m.tid].nodes[id]
IsCtl(m, c) == m.ctl[1] = c
Ret(m, v) == [m EXCEPT !.ctl = <<"rt", v>>]
Emit(m, e) == [m EXCEPT !.out = Append(@, e)]
Abandon(m, why) == [m EXCEPT !.ab = why, !.ctl = <<"done">>]
Push(m, fr) == [m EXCEPT !.k = <<fr, @>>]
EvAt(m, id, env) == [m EXCEPT !.ctl = <<"ev", id, env>>]
Alloc(m, o) == [m EXCEPT !.hp = Append(@, o)]
Last(m) == <<"o", Len(m.hp)>>                       \* reference to the object allocated last
RetNew(m, o) == LET m2 == Alloc(m, o) IN Ret(m2, Last(m2))
(* C24: an exception records the names of the functions that are active where it is created, innermost first.
   m.nm: name of the native function that is executing ("" in code). *)
TraceOn(m) == LET c == Progs[m.tid].cmds[1] IN c[1] = "vm" /\ Len(c) > 2 /\ "trace" \in DOMAIN c[3] /\ c[3].trace
RECURSIVE Active(_, _)
Active(m, k) ==
    IF k = <<>> THEN <<>>
    ELSE LET t == k[1][1]
             rest == IF t = "cobase" THEN <<>> ELSE Active(m, k[2])
         IN CASE t = "fnb" -> <<k[1][3]>> \o rest
              [] t = "modi" -> <<"<module_init>">> \o rest
              [] t = "catch" -> <<"<catch panic>">> \o rest
              [] t = "rsm" -> <<m.nats[k[1][2]].name>> \o rest
              [] OTHER -> rest
NewEx(m, msg) ==
    LET on == TraceOn(m) /\ m.cur # 0 IN
    Alloc(m, [k |-> "ex", msg |-> msg, th |-> on, tr |-> IF ~on THEN <<>> ELSE (IF m.nm = "" THEN <<>> ELSE <<m.nm>>) \o Active(m, m.k)])
In(m, name) == [m EXCEPT !.nm = name]
PanicMsg(m, msg) == LET m2 == NewEx(m, msg) IN [m2 EXCEPT !.ctl = <<"pn", Last(m2)>>]
PanicErr(m) == PanicMsg(m, ERR)
Obj(m, v) == m.hp[v[2]]
IsObj(v) == v[1] = "o"
Kind(m, v) == IF v[1] = "o" THEN m.hp[v[2]].k ELSE v[1]
Is(m, v, kind) == v[1] = "o" /\ m.hp[v[2]].k = kind
SetObj(m, v, o) == [m EXCEPT !.hp[v[2]] = o]
Truthy(v) == ~(v = Nul \/ v = <<"b", FALSE>>)
Bool(b) == <<"b", b>>
IntV(n) == <<"i", n>>
EmptyFn == [x \in {} |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE IndexOf(_, _, _)
IndexOf(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IndexOf(s, x, i + 1)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

-----------------------------------------------------------------------------
(* Environments: <<name, cell, rest>>, ended by <<"M", module>>. *)
RECURSIVE Cell(_, _, _)
Cell(m, env, name) ==
    IF Len(env) = 3 THEN IF env[1] = name THEN env[2] ELSE Cell(m, env[3], name)
    ELSE m.mods[env[2]].cells[name]
NewCell(m, v) == [m EXCEPT !.st = Append(@, v)]
RECURSIVE BindAll(_, _, _, _)       \* -> <<store, env>>
BindAll(st, env, names, vals) ==
    IF names = <<>> THEN <<st, env>>
    ELSE BindAll(Append(st, vals[1]), <<names[1], Len(st) + 1, env>>, Tail(names), Tail(vals))

-----------------------------------------------------------------------------
(* Values: kinds, equality, text, rendering for the host. *)
StrOf(m, v) == IF v[1] = "s" THEN v[2] ELSE Obj(m, v).s      \* strings and slices
IsStr(m, v) == v[1] = "s" \/ Is(m, v, "slc")

(* Equality (C17): content for primitives and strings, identity otherwise. *)
Equal(m, a, b) ==
    CASE a[1] \in {"i", "f"} /\ b[1] \in {"i", "f"} ->
            IF a[1] = b[1] THEN a[2] = b[2]
            ELSE LET n == IF a[1] = "i" THEN a[2] ELSE b[2]
                     f == IF a[1] = "i" THEN b[2] ELSE a[2]
                 IN Abs(n) <= 2097151 /\ n * FS = f
      [] IsStr(m, a) -> IsStr(m, b) /\ StrOf(m, a) = StrOf(m, b)
      [] OTHER -> ~IsStr(m, b) /\ a = b
BigForEq(a, b) == \/ a[1] = "I" \/ b[1] = "I"
                  \/ a[1] = "i" /\ b[1] = "f" /\ Abs(a[2]) > 1000000
                  \/ a[1] = "f" /\ b[1] = "i" /\ Abs(b[2]) > 1000000
RECURSIVE KeyIndex(_, _, _, _)
KeyIndex(m, ks, key, i) ==
    IF i > Len(ks) THEN 0 ELSE IF Equal(m, ks[i], key) THEN i ELSE KeyIndex(m, ks, key, i + 1)

TypeName(m, v) ==
    LET k == Kind(m, v) IN
    CASE k = "null" -> "Null" [] k = "b" -> "Boolean" [] k = "i" -> "Integer" [] k = "f" -> "Float"
      [] k = "s" -> "String" [] k = "y" -> "Symbol" [] k = "arr" -> "Array" [] k = "tup" -> "Tuple"
      [] k = "rec" -> "Record" [] k = "map" -> "Map" [] k = "set" -> "Set" [] k = "ex" -> "Exception"
      [] k = "res" -> "Result" [] k = "sb" -> "StringBuilder" [] k = "slc" -> "StringSlice"
      [] k = "co" -> "Coroutine" [] k = "tok" -> "CoroutineToken" [] k = "buf" -> "Buffer"
      [] k = "view" -> (IF Obj(m, v).w = "k" THEN "MapKeyView" ELSE "MapValueView")
      [] k = "ty" -> "Type" [] k \in {"mod", "hm"} -> "Module" [] k = "schema" -> "RecordSchema" [] k = "I" -> "Integer" [] k = "nat" -> "NativeObject"
      [] OTHER -> "Function"

(* Text of a value in interpolated strings, string builders and print; "" with flag FALSE: not modelled *)
HasText(m, v) == Kind(m, v) \in {"null", "b", "i", "I", "s", "y", "slc", "ex"}
Text(m, v) ==
    LET k == Kind(m, v) IN
    CASE k = "null" -> "null"
      [] k = "b" -> (IF v[2] THEN "true" ELSE "false")
      [] k = "i" -> ToString(v[2])
      [] k \in {"s", "I"} -> v[2]
      [] k = "y" -> "#" \o v[2]
      [] k = "slc" -> Obj(m, v).s
      [] OTHER -> "Exception: " \o Obj(m, v).msg
RECURSIVE Concat(_, _)
Concat(m, vs) == IF vs = <<>> THEN "" ELSE Text(m, vs[1]) \o Concat(m, Tail(vs))
RECURSIVE Join(_, _)
Join(m, vs) == IF vs = <<>> THEN "" ELSE Text(m, vs[1]) \o (IF Len(vs) > 1 THEN " " ELSE "") \o Join(m, Tail(vs))
AllText(m, vs) == \A i \in 1..Len(vs) : HasText(m, vs[i])
Wild(m, vs) == \E i \in 1..Len(vs) : Is(m, vs[i], "ex") /\ Obj(m, vs[i]).msg = ERR

RECURSIVE Render(_, _, _)
RenderAll(m, vs, d) == [i \in 1..Len(vs) |-> Render(m, vs[i], d)]
FloatText(n) == ToString(n) \o "/1024"
Render(m, v, d) ==
    LET k == Kind(m, v) IN
    IF d > 3 THEN <<"deep">> ELSE
    CASE k \in {"null", "b"} -> v
      [] k = "i" -> <<"i", ToString(v[2])>>
      [] k = "f" -> <<"f", FloatText(v[2])>>
      [] k = "s" -> v
      [] k = "tup" -> <<"t", RenderAll(m, Obj(m, v).v, d + 1)>>
      [] k = "arr" -> <<"a", RenderAll(m, Obj(m, v).v, d + 1)>>
      [] k = "rec" -> <<"r", [i \in 1..Len(Obj(m, v).ks) |-> <<Obj(m, v).ks[i], Render(m, Obj(m, v).vs[i], d + 1)>>]>>
      [] k = "res" -> <<IF Obj(m, v).ok THEN "ok" ELSE "err", Render(m, Obj(m, v).v, d + 1)>>
      [] k = "ex" -> IF Obj(m, v).th THEN <<"ex", Obj(m, v).msg, Obj(m, v).tr>> ELSE <<"ex", Obj(m, v).msg>>
      [] k = "nat" -> <<"n", Obj(m, v).tag, Obj(m, v).size>>
      [] k = "buf" -> <<"buf", ToString(Len(Obj(m, v).v)), SubSeq(Obj(m, v).v, 1, Min(64, Len(Obj(m, v).v)))>>
      [] k = "co" -> <<"co">>
      [] k \in {"mod", "hm"} -> <<"mod">>
      [] k = "schema" -> <<"schema">>
      [] k = "I" -> <<"i", v[2]>>
      [] k = "ty" -> <<"ty", v[2]>>
      [] k \in {"fnl", "clo", "nf", "std", "bm", "mth"} -> <<"fn">>
      [] OTHER -> <<"internal">>

-----------------------------------------------------------------------------
(* Arithmetic and comparison.  Exactness for the full 64 bit range is the subject of Arith.tla. *)
TruncDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
RECURSIVE Power(_, _)
Power(a, n) == IF n = 0 THEN 1 ELSE LET p == Power(a, n - 1) IN IF Abs(p) > 1000000 \/ Abs(a) > 1000 THEN Limit ELSE a * p
(* two's complement; \div rounds down *)
RECURSIVE BitAnd(_, _)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
                ELSE (a % 2) * (b % 2) + 2 * BitAnd(a \div 2, b \div 2)
BitNot(a) == -a - 1
BitOr(a, b) == BitNot(BitAnd(BitNot(a), BitNot(b)))
BitXor(a, b) == BitAnd(BitOr(a, b), BitNot(BitAnd(a, b)))
Num(v) == v[1] \in {"i", "f"}
Fl(v) == IF v[1] = "i" THEN v[2] * FS ELSE v[2]
Bits(m, op, a, b) ==
    IF a[1] = "I" \/ b[1] = "I" THEN Abandon(m, "bigint")
    ELSE IF ~(a[1] = "i" /\ b[1] = "i") THEN PanicErr(m)
    ELSE LET x == a[2]
             y == b[2]
         IN CASE op = "&" -> Ret(m, IntV(BitAnd(x, y)))
              [] op = "|" -> Ret(m, IntV(BitOr(x, y)))
              [] op = "^" -> Ret(m, IntV(BitXor(x, y)))
              [] y < 0 \/ y > 63 -> PanicErr(m)                  \* shift by an invalid number of bits
              [] op = "<<" -> IF y = 0 \/ x = 0 THEN Ret(m, a) ELSE IF y > 20 \/ Abs(x) > 900 THEN Abandon(m, "bigint") ELSE Ret(m, IntV(x * 2 ^ y))
              [] op = ">>" -> IF x >= 0 THEN Ret(m, IntV(IF y > 30 THEN 0 ELSE x \div 2 ^ y)) ELSE IF y = 0 THEN Ret(m, a)
                              ELSE IF y < 35 THEN Abandon(m, "bigint") ELSE Ret(m, IntV(2 ^ (64 - y) - 1))   \* zeros are shifted in
              [] OTHER -> Abandon(m, "operator " \o op)
Arith(m, op, a, b) ==
    IF a[1] = "I" \/ b[1] = "I" THEN Abandon(m, "bigint")
    ELSE IF ~(Num(a) /\ Num(b)) THEN PanicErr(m)
    ELSE IF a[1] = "i" /\ b[1] = "i" THEN
        LET x == a[2]
            y == b[2]
            Done(r) == IF Abs(r) >= Limit THEN Abandon(m, "bigint") ELSE Ret(m, IntV(r))
        IN CASE op = "+" -> Done(x + y)
             [] op = "-" -> Done(x - y)
             [] op = "*" -> IF Abs(x) > 1 /\ Abs(y) > 1 /\ (Abs(x) > 30000 \/ Abs(y) > 30000) THEN Abandon(m, "bigint") ELSE Done(x * y)
             [] op = "/" -> IF y = 0 THEN PanicErr(m) ELSE Done(TruncDiv(x, y))
             [] op = "%" -> IF y = 0 THEN PanicErr(m) ELSE Done(x - y * TruncDiv(x, y))
             [] op = "**" -> IF y < 0 THEN (CASE x = 0 -> PanicErr(m) [] x = 1 -> Ret(m, IntV(1))
                                              [] x = -1 -> Ret(m, IntV(IF y % 2 = 0 THEN 1 ELSE -1)) [] OTHER -> Ret(m, IntV(0)))
                             ELSE IF y > 64 /\ x \notin {0, 1, -1} THEN Abandon(m, "bigint")
                             ELSE IF y > 64 THEN Ret(m, IntV(IF x = -1 /\ y % 2 = 1 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1))
                             ELSE Done(Power(x, y))
             [] OTHER -> Abandon(m, "operator " \o op)
    ELSE IF Abs(a[2]) > 100000 \/ Abs(b[2]) > 100000 THEN Abandon(m, "float")
    ELSE LET x == Fl(a)
             y == Fl(b)
         IN CASE op = "+" -> Ret(m, <<"f", x + y>>)
              [] op = "-" -> IF x = y THEN Abandon(m, "float") ELSE Ret(m, <<"f", x - y>>)
              [] OTHER -> Abandon(m, "float")
Compare(m, op, a, b) ==
    LET Res(c) == Ret(m, Bool(CASE op = "<" -> c < 0 [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] OTHER -> c >= 0)) IN
    IF a[1] = "I" \/ b[1] = "I" THEN Abandon(m, "bigint")
    ELSE IF a = Nul \/ b = Nul THEN Res(IF a = b THEN 0 ELSE IF a = Nul THEN -1 ELSE 1)
    ELSE IF ~(Num(a) /\ Num(b)) THEN PanicErr(m)
    ELSE IF a[1] = b[1] THEN Res(IF a[2] < b[2] THEN -1 ELSE IF a[2] > b[2] THEN 1 ELSE 0)
    ELSE IF Abs(a[2]) > 1000000 \/ Abs(b[2]) > 1000000 THEN Abandon(m, "float")
    ELSE Res(IF Fl(a) < Fl(b) THEN -1 ELSE IF Fl(a) > Fl(b) THEN 1 ELSE 0)
Binary(m, op, a, b) ==
    CASE op = "==" -> IF BigForEq(a, b) THEN Abandon(m, "float") ELSE Ret(m, Bool(Equal(m, a, b)))
      [] op = "!=" -> IF BigForEq(a, b) THEN Abandon(m, "float") ELSE Ret(m, Bool(~Equal(m, a, b)))
      [] op \in {"<", "<=", ">", ">="} -> Compare(m, op, a, b)
      [] op \in {"&", "|", "^", "<<", ">>"} -> Bits(m, op, a, b)
      [] OTHER -> Arith(m, op, a, b)
Unary(m, op, a) ==
    CASE a[1] = "I" /\ op # "!" -> Abandon(m, "bigint")
      [] op = "!" -> Ret(m, Bool(~Truthy(a)))
      [] op = "-" -> IF ~Num(a) THEN PanicErr(m) ELSE IF a[1] = "f" /\ a[2] = 0 THEN Abandon(m, "float") ELSE Ret(m, <<a[1], -a[2]>>)
      [] op = "+" -> IF ~Num(a) THEN PanicErr(m) ELSE Ret(m, a)
      [] op = "~" -> IF a[1] # "i" THEN PanicErr(m) ELSE Ret(m, IntV(-a[2] - 1))
      [] OTHER -> Abandon(m, "operator " \o op)

-----------------------------------------------------------------------------
(* Containers: element and member access. *)
InIdx(i, n) == i[1] = "i" /\ i[2] >= 0 /\ i[2] < n
LoadIndex(m, o, i) ==
    LET k == Kind(m, o) IN
    CASE k \in {"arr", "tup"} -> IF InIdx(i, Len(Obj(m, o).v)) THEN Ret(m, Obj(m, o).v[i[2] + 1]) ELSE PanicErr(m)
      [] k = "buf" -> IF InIdx(i, Len(Obj(m, o).v)) THEN Ret(m, IntV(Obj(m, o).v[i[2] + 1])) ELSE PanicErr(m)
      [] k = "map" -> LET p == KeyIndex(m, Obj(m, o).ks, i, 1) IN Ret(m, IF p = 0 THEN Nul ELSE Obj(m, o).vs[p])
      [] OTHER -> PanicErr(m)
MapPut(m, o, key, v) ==
    LET p == KeyIndex(m, Obj(m, o).ks, key, 1) IN
    IF p # 0 THEN [m EXCEPT !.hp[o[2]].vs[p] = v]
    ELSE [m EXCEPT !.hp[o[2]].ks = Append(@, key), !.hp[o[2]].vs = Append(@, v), !.hp[o[2]].mv = IF @ = 0 THEN 0 ELSE @ + 1]
(* stores return m unchanged apart from the effect; a panic shows in m.ctl *)
StoreIndex(m, o, i, v) ==
    LET k == Kind(m, o) IN
    CASE k \in {"arr", "tup"} -> IF InIdx(i, Len(Obj(m, o).v)) THEN Ret([m EXCEPT !.hp[o[2]].v[i[2] + 1] = v], v) ELSE PanicErr(m)
      [] k = "buf" -> IF InIdx(i, Len(Obj(m, o).v)) /\ v[1] = "i" /\ v[2] >= 0 /\ v[2] <= 255
                      THEN Ret([m EXCEPT !.hp[o[2]].v[i[2] + 1] = v[2]], v) ELSE PanicErr(m)
      [] k = "map" -> Ret(MapPut(m, o, i, v), v)
      [] OTHER -> PanicErr(m)
TupleField(m, o, n) ==
    IF Is(m, o, "tup") /\ n < Len(Obj(m, o).v) THEN Ret(m, Obj(m, o).v[n + 1]) ELSE PanicErr(m)
StoreTupleField(m, o, n, v) ==
    IF Is(m, o, "tup") /\ n < Len(Obj(m, o).v) THEN Ret([m EXCEPT !.hp[o[2]].v[n + 1] = v], v) ELSE PanicErr(m)

(* number of parameters (including the instance) of the built in methods, 0: there is no such method *)
MethodParams(type, name) ==
    CASE type = "Array" -> (CASE name \in {"size", "clear"} -> 1 [] name = "append" -> 2 [] OTHER -> 0)
      [] type = "Map" -> (CASE name \in {"size", "keys", "values", "clear"} -> 1 [] name \in {"contains", "remove"} -> 2 [] OTHER -> 0)
      [] type = "Set" -> (CASE name \in {"size", "clear"} -> 1 [] name \in {"contains", "insert", "remove"} -> 2 [] OTHER -> 0)
      [] type = "Tuple" -> IF name = "size" THEN 1 ELSE 0
      [] type = "Buffer" -> IF name = "size" THEN 1 ELSE 0
      [] type = "Result" -> IF name \in {"type", "is_success", "is_error", "value", "error"} THEN 1 ELSE 0
      [] type = "Exception" -> IF name \in {"message", "trace"} THEN 1 ELSE 0
      [] type \in {"String", "StringSlice"} ->
            (CASE name = "size" -> 1 [] name \in {"contains", "slice_first", "slice_last"} -> 2 [] name = "slice" -> 3
               [] name = "to_string" /\ type = "StringSlice" -> 1 [] OTHER -> 0)
      [] type = "StringBuilder" -> (CASE name \in {"append", "clear", "size", "to_string"} -> 1 [] name \in {"append_byte", "contains"} -> 2 [] OTHER -> 0)
      [] type = "Coroutine" -> IF name = "name" THEN 1 ELSE 0
      [] type = "CoroutineToken" -> IF name \in {"coroutine", "valid", "resume"} THEN 1 ELSE 0
      [] type = "Type" -> IF name = "name" THEN 1 ELSE 0
      [] OTHER -> 0

StdNames == {"print", "success", "error", "panic", "launch", "current_coroutine", "coroutine_token", "yield_coroutine",
             "dispatch", "new_string_builder", "new_buffer", "catch_panic", "type_of", "to_utf8"}
StdTypes == {"Array", "Boolean", "Buffer", "Coroutine", "CoroutineToken", "Exception", "Float", "Function", "Map",
             "MapKeyView", "MapValueView", "Integer", "Module", "NativeObject", "Null", "Record", "Result", "Set", "String",
             "StringBuilder", "StringSlice", "Symbol", "Tuple", "Type"}
StdParams(name) ==
    CASE name \in {"success", "error", "panic", "launch", "new_buffer", "catch_panic", "type_of", "to_utf8"} -> 1 [] OTHER -> 0

(* module member, seen from outside: <<"none">> when there is no such export *)
Export(m, mod, name) ==
    IF mod = "std" THEN (IF name \in StdNames THEN <<"std", name>> ELSE IF name \in StdTypes THEN <<"ty", name>> ELSE None)
    ELSE IF name \in m.mods[mod].exports THEN m.st[m.mods[mod].cells[name]] ELSE None

RecIndex(m, o, name) == IndexOf(Obj(m, o).ks, name, 1)
(* value of `o.name` *)
LoadMember(m, o, name) ==
    LET k == Kind(m, o) IN
    CASE k = "mod" -> LET v == Export(m, o[2], name) IN
                      IF v = None THEN PanicErr(m) ELSE IF v = Undef THEN Abandon(m, "undef") ELSE Ret(m, v)
      [] k = "hm" -> IF name \in DOMAIN Obj(m, o).cells THEN Ret(m, m.st[Obj(m, o).cells[name]]) ELSE PanicErr(m)
      [] k = "rec" -> LET p == RecIndex(m, o, name) IN IF p = 0 THEN PanicErr(m) ELSE Ret(m, Obj(m, o).vs[p])
      [] k = "ty" -> IF MethodParams(o[2], name) = 0 THEN PanicErr(m) ELSE Ret(m, <<"mth", o[2], name>>)
      [] OTHER -> IF MethodParams(TypeName(m, o), name) = 0 THEN PanicErr(m)
                  ELSE RetNew(m, [k |-> "bm", f |-> <<"mth", TypeName(m, o), name>>, self |-> o])
StoreMember(m, o, name, v) ==
    IF Is(m, o, "rec") /\ RecIndex(m, o, name) # 0 THEN Ret([m EXCEPT !.hp[o[2]].vs[RecIndex(m, o, name)] = v], v) ELSE PanicErr(m)
(* callee of `o.name(...)`: control returns <<callee, prepend o as first argument>> in the value *)
LoadMethod(m, o, name) ==
    IF Kind(m, o) \in {"mod", "hm", "rec", "ty"} THEN LoadMember(m, o, name)
    ELSE IF MethodParams(TypeName(m, o), name) = 0 THEN PanicErr(m)
    ELSE Ret(m, <<"mth", TypeName(m, o), name>>)
BindsThis(m, o) == Kind(m, o) \notin {"mod", "hm", "rec", "ty"}

Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
Clamp(v) == IF v[2] < 0 THEN 0 ELSE v[2]
Slice(m, s) == RetNew(m, [k |-> "slc", s |-> s])

-----------------------------------------------------------------------------
(* Coroutines *)
NewCo(f, args) == [st |-> "new", k |-> <<>>, gen |-> 1, tok |-> Nul, res |-> Nul, f |-> f, args |-> args,
                   rv |-> <<"none">>, cb |-> <<>>, old |-> <<>>, val |-> Nul, what |-> "call"]
(* allocate the coroutine and the object scripts and handles refer to *)
MakeCo(m, f, args) ==
    LET m2 == Alloc(m, [k |-> "co", id |-> Len(m.cos) + 1]) IN
    [m2 EXCEPT !.cos = Append(@, [NewCo(f, args) EXCEPT !.val = Last(m2)])]
Enqueue(m, id) == [m EXCEPT !.rq = Append(@, id)]
StartCo(m, id) == Enqueue([m EXCEPT !.cos[id].st = "started"], id)
(* a new token generation: all tokens handed out before become invalid *)
ResetTok(m, id) == [m EXCEPT !.cos[id].gen = @ + 1, !.cos[id].tok = Nul]
ResumeCo(m, id, rv) == Enqueue(ResetTok([m EXCEPT !.cos[id].st = "ready", !.cos[id].rv = rv], id), id)
TokValid(m, t) == m.cos[t.co].gen = t.gen /\ m.cos[t.co].tok # Nul
GetTok(m, id) ==     \* the coroutine's current token object, created on demand
    IF m.cos[id].tok # Nul THEN m
    ELSE LET m2 == Alloc(m, [k |-> "tok", co |-> id, gen |-> m.cos[id].gen]) IN [m2 EXCEPT !.cos[id].tok = Last(m2)]
(* the running coroutine gives up control; it continues with rv when it runs again *)
Suspend(m, st, rv) ==
    LET m2 == [m EXCEPT !.cos[m.cur].st = st, !.cos[m.cur].k = m.k, !.cos[m.cur].rv = rv, !.cur = 0, !.k = <<>>, !.ctl = <<"sched">>] IN
    IF st = "ready" THEN Enqueue(ResetTok(m2, m.cur), m.cur) ELSE m2

-----------------------------------------------------------------------------
(* Native functions, described by small programs of operations (see harness/host.cpp). *)
NatDef(m, i) == m.nats[i]
Opt(o, f, d) == IF f \in DOMAIN o THEN o[f] ELSE d
TextOf(m, fr, e) == IF e[1] = "arg" THEN (LET v == fr.args[e[2] + 1] IN IF v[1] = "i" THEN ToString(v[2]) ELSE v[2]) ELSE e[2]
TextArg(m, args, i) == LET v == args[i + 1] IN IF v[1] = "i" THEN ToString(v[2]) ELSE v[2]

(* host value expressions; fr = [args, closure, locals, inv] of the native frame or <<>> *)
RECURSIVE Make(_, _, _)            \* -> <<m, value>>
RECURSIVE MakeAll(_, _, _, _)      \* -> <<m, values>>
MakeAll(m, es, fr, acc) ==
    IF es = <<>> THEN <<m, acc>> ELSE LET r == Make(m, es[1], fr) IN MakeAll(r[1], Tail(es), fr, Append(acc, r[2]))
Make(m, e, fr) ==
    LET k == e[1] IN
    CASE k = "null" -> <<m, Nul>>
      [] k \in {"b", "i", "s"} -> <<m, e>>
      [] k = "buf" -> LET m2 == Alloc(m, [k |-> "buf", v |-> [i \in 1..e[2] |-> 0]]) IN <<m2, Last(m2)>>
      [] k = "t" -> LET r == MakeAll(m, e[2], fr, <<>>) m2 == Alloc(r[1], [k |-> "tup", v |-> r[2]]) IN <<m2, Last(m2)>>
      [] k = "a" -> LET r == MakeAll(m, e[2], fr, <<>>) m2 == Alloc(r[1], [k |-> "arr", v |-> r[2]]) IN <<m2, Last(m2)>>
      [] k \in {"ok", "err"} -> LET r == Make(m, e[2], fr) m2 == Alloc(r[1], [k |-> "res", ok |-> k = "ok", v |-> r[2]]) IN <<m2, Last(m2)>>
      [] k = "r" -> LET r == MakeAll(m, [i \in 1..Len(e[2]) |-> e[2][i][2]], fr, <<>>)
                        m2 == Alloc(r[1], [k |-> "rec", ks |-> [i \in 1..Len(e[2]) |-> e[2][i][1]], vs |-> r[2]])
                    IN <<m2, Last(m2)>>
      [] k = "n" -> LET m2 == Alloc(m, [k |-> "nat", tag |-> e[2], size |-> ToString(IF Len(e) > 2 THEN e[3] ELSE Len(e[2]) + 1), align |-> ToString(IF Len(e) > 3 THEN e[4] ELSE 1)]) IN <<m2, Last(m2)>>
      [] k = "reg" -> <<m, IF e[2] \in DOMAIN m.regs THEN m.regs[e[2]] ELSE Nul>>
      [] k = "arg" -> <<m, fr.args[e[2] + 1]>>
      [] k = "closure" -> <<m, fr.closure>>
      [] k = "local" -> <<m, fr.locals[e[2] + 1]>>
      [] k = "inv" -> <<m, fr.inv>>
      [] OTHER -> <<Abandon(m, "host value"), Nul>>

-----------------------------------------------------------------------------
(* Host commands that take effect at once (top level, inside native functions and completion callbacks). *)
SetReg(m, r, v) == [m EXCEPT !.regs = (r :> v) @@ @]
Reg(m, r) == IF r \in DOMAIN m.regs THEN m.regs[r] ELSE Nul
ModFns(m, mod) == Progs[m.tid].mods[mod]

(* creates the cells of a script module: functions are bound, everything else is undefined until initialisation *)
RECURSIVE LoadItems(_, _, _, _)
LoadItems(m, mod, items, cells) ==        \* -> <<m, cells>>
    IF items = <<>> THEN <<m, cells>>
    ELSE LET it == items[1]
             n == Node(m, it)
             names == n.s
             RECURSIVE Put(_, _, _)
             Put(mm, cs, ns) == IF ns = <<>> THEN <<mm, cs>>
                                ELSE Put(NewCell(mm, IF n.o = "fdecl" THEN <<"fnl", n.c[1]>> ELSE Undef),
                                         (ns[1] :> (Len(mm.st) + 1)) @@ cs, Tail(ns))
             r == Put(m, cells, names)
         IN LoadItems(r[1], mod, Tail(items), r[2])
RECURSIVE BindImports(_, _, _)
BindImports(m, imports, cells) ==         \* imports: <<alias, module>>
    IF imports = <<>> THEN <<m, cells>>
    ELSE BindImports(NewCell(m, <<"mod", imports[1][2]>>), Tail(imports), (imports[1][1] :> (Len(m.st) + 1)) @@ cells)
Load(m, name) ==
    LET src == ModFns(m, name) IN
    IF "bad" \in DOMAIN src THEN Emit(m, <<"load", name, "COMPILE", "BAD_SOURCE", "*">>)
    ELSE IF name \in DOMAIN m.mods THEN Emit(m, <<"load", name, "MODULE_EXISTS">>)
    ELSE LET r1 == BindImports(m, src.imports, EmptyFn)
             r2 == LoadItems(r1[1], name, src.items, r1[2])
             e == {src.exports[i] : i \in 1..Len(src.exports)}
         IN Emit([r2[1] EXCEPT !.mods = (name :> [init |-> FALSE, cells |-> r2[2], exports |-> e,
                                                   deps |-> src.deps]) @@ @],
                 <<"load", name, "OK">>)
RECURSIVE NativeMembers(_, _, _)
NativeMembers(m, ms, cells) ==
    IF ms = <<>> THEN <<m, cells>> ELSE NativeMembers(NewCell(m, Reg(m, ms[1][2])), Tail(ms), (ms[1][1] :> (Len(m.st) + 1)) @@ cells)
LoadNative(m, name, ms) ==
    IF name \in DOMAIN m.mods THEN Emit(m, <<"module", name, "MODULE_EXISTS">>)
    ELSE LET r == NativeMembers(m, ms, EmptyFn) IN
         [r[1] EXCEPT !.mods = (name :> [init |-> TRUE, cells |-> r[2], exports |-> DOMAIN r[2], deps |-> <<>>]) @@ @]
(* Module initialisation (C14): the first use of a module initialises what it imports, in order of import, first. *)
RECURSIVE InitOrder(_, _, _, _)
(* depth first over imports; -> [todo: order of initialisation, err: "" or an error code, msg] *)
InitOrder(m, mod, active, done) ==
    IF mod \notin DOMAIN m.mods THEN [done EXCEPT !.err = "MODULE_NOT_FOUND"]
    ELSE IF m.mods[mod].init \/ IndexOf(done.todo, mod, 1) # 0 THEN done
    ELSE IF mod \in active THEN [done EXCEPT !.err = "INTERNAL"]
    ELSE LET RECURSIVE Deps(_, _)
             Deps(ds, d) == IF ds = <<>> \/ d.err # "" THEN d ELSE Deps(Tail(ds), InitOrder(m, ds[1], active \cup {mod}, d))
             r == Deps(m.mods[mod].deps, done)
         IN IF r.err # "" THEN r ELSE [r EXCEPT !.todo = Append(@, mod)]
(* only module level variables need an initialiser *)
HasInit(m, mod) == \E i \in 1..Len(ModFns(m, mod).items) : Node(m, ModFns(m, mod).items[i]).o # "fdecl"
(* a request while the machine runs cannot run initialisers *)
RECURSIVE NestedInit(_, _)
NestedInit(m, todo) ==
    IF todo = <<>> THEN <<m, "">>
    ELSE IF HasInit(m, todo[1]) THEN <<m, "INTERNAL">>
    ELSE NestedInit([m EXCEPT !.mods[todo[1]].init = TRUE], Tail(todo))
NestedExport(m, c) ==
    IF c[3] \notin DOMAIN m.mods THEN Emit(m, <<"export", c[3], c[4], "MODULE_NOT_FOUND">>)
    ELSE LET o == InitOrder(m, c[3], {}, [todo |-> <<>>, err |-> ""])
             r == NestedInit(m, o.todo)
             err == IF r[2] # "" THEN r[2] ELSE o.err
             v == Export(r[1], c[3], c[4])
         IN IF err # "" THEN Emit(r[1], <<"export", c[3], c[4], err>>)
            ELSE IF v = None THEN Emit(r[1], <<"export", c[3], c[4], "EXPORT_NOT_FOUND">>)
            ELSE Emit(SetReg(r[1], c[5], v), <<"export", c[3], c[4], "OK">>)

FuncKinds == {"fnl", "clo", "nf", "std", "bm", "mth"}
IsFunc(m, v) == Kind(m, v) \in FuncKinds
CoOf(m, v) == Obj(m, v).id
CoStarted(c) == c.st # "new"

(* the state of the coroutine a resume token refers to decides whether it can be used (C05) *)
TokUsable(m, t) == TokValid(m, t) /\ m.cos[t.co].st = "waiting" /\ m.cos[t.co].what = "async"
HostTok(m, c) == m.toks[c[3]]

LoadStd(m) == [m EXCEPT !.mods = ("std" :> [init |-> TRUE, cells |-> EmptyFn, exports |-> StdNames \cup StdTypes, deps |-> <<>>]) @@ @]

-----------------------------------------------------------------------------
(* C12, C21: direct calls of the host interface: ["api", vm, function, operands, mode], see harness/api_ops.hpp.            *)
(* An operation either succeeds completely or reports one error code and changes nothing: arguments that are missing or     *)
(* malformed are reported first (BAD_ARG), then operands of another type (BAD_TYPE), then states, keys and positions that   *)
(* do not exist; what cannot be allocated is reported as ALLOC.  Queries answer with a neutral value instead of failing.    *)
ApiOut(fn) ==
    CASE fn = "make_null" -> 1
      [] fn \in {"to_string", "copy", "type", "kind_type", "make_boolean", "make_integer", "make_float", "make_string", "make_buffer", "make_tuple",
                 "make_record_schema", "make_record", "record_keys", "make_array", "make_success", "make_error", "result_value", "result_error",
                 "exception_message", "exception_trace", "coroutine_result", "type_name"} -> 2
      [] fn \in {"tuple_get", "record_get", "array_get", "make_coroutine", "make_module", "module_get_export", "get_export"} -> 3
      [] fn = "make_native" -> 4
      [] fn \in {"make_sync_function", "make_async_function", "make_resumable_function"} -> 5
      [] OTHER -> 0
ApiOptional(fn) == CASE fn = "make_coroutine" -> {2} [] ApiOut(fn) = 5 -> {4} [] OTHER -> {}
(* queries: no error argument; the answer when there is nothing to ask *)
ApiDefault(fn) ==
    CASE fn = "kind" -> <<"k", "INVALID">>
      [] fn \in {"boolean_value", "buffer_is_pinned", "buffer_put", "is_success", "is_error", "coroutine_started", "coroutine_completed", "has_ready",
                 "native_put", "same"} -> Bool(FALSE)
      [] fn \in {"integer_value", "buffer_size", "tuple_size", "array_size", "native_size", "native_type"} -> <<"i", "0">>
      [] fn = "float_value" -> <<"f", "0/1024">>
      [] fn = "settings" -> <<"vm", "0", "0", TRUE>>
      [] OTHER -> None
ApiQuery(fn) == ApiDefault(fn) # None
KindName(m, v) ==
    LET k == Kind(m, v) IN
    CASE k = "null" -> "NULL" [] k = "b" -> "BOOLEAN" [] k \in {"i", "I"} -> "INTEGER" [] k = "f" -> "FLOAT" [] k = "s" -> "STRING" [] k = "buf" -> "BUFFER"
      [] k = "tup" -> "TUPLE" [] k = "rec" -> "RECORD" [] k = "schema" -> "RECORD_SCHEMA" [] k = "arr" -> "ARRAY" [] k = "res" -> "RESULT"
      [] k = "ex" -> "EXCEPTION" [] k = "co" -> "COROUTINE" [] k \in {"mod", "hm"} -> "MODULE" [] k = "ty" -> "TYPE" [] k = "nat" -> "NATIVE"
      [] k \in FuncKinds -> "FUNCTION"
      [] OTHER -> "INTERNAL"
KindType(k) ==
    CASE k = "NULL" -> "Null" [] k = "BOOLEAN" -> "Boolean" [] k = "INTEGER" -> "Integer" [] k = "FLOAT" -> "Float" [] k = "STRING" -> "String"
      [] k = "BUFFER" -> "Buffer" [] k = "TUPLE" -> "Tuple" [] k = "RECORD" -> "Record" [] k = "RECORD_SCHEMA" -> "RecordSchema" [] k = "FUNCTION" -> "Function"
      [] k = "ARRAY" -> "Array" [] k = "RESULT" -> "Result" [] k = "EXCEPTION" -> "Exception" [] k = "COROUTINE" -> "Coroutine" [] k = "MODULE" -> "Module"
      [] k = "TYPE" -> "Type" [] k = "NATIVE" -> "NativeObject"
      [] OTHER -> ""
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
(* are two handles the same object?  Unspecified for equal strings and numbers. *)
SameKnown(m, a, b) == a # b \/ Kind(m, a) \notin {"s", "f", "I", "mod", "mth", "std"}
ApiMembers(m, a) == [i \in 1..((Len(a) - 3) \div 2) |-> <<a[2 * i + 2], a[2 * i + 3]>>]
RECURSIVE HostModuleCells(_, _, _)
HostModuleCells(m, ms, cells) ==
    IF ms = <<>> THEN <<m, cells>>
    ELSE HostModuleCells(NewCell(m, Reg(m, ms[1][2][2])), Tail(ms), (ms[1][1][2] :> (Len(m.st) + 1)) @@ cells)
BadText(op) == op[1] = "S0"
VmSetting(m, what) == LET c == Progs[m.tid].cmds[1] IN IF c[1] = "vm" /\ Len(c) > 2 /\ what \in DOMAIN c[3] THEN ToString(c[3][what]) ELSE ""

(* -> <<m, code, answer of a query, value for the result handle>> *)
ApiDo(m, fn, a) ==
    LET h(i) == Reg(m, a[i][2])
        nolist == \A i \in 1..Len(a) : a[i][1] # "N"
        required == {i \in 1..Len(a) : a[i][1] = "N"} \ ApiOptional(fn)
        Ok(v) == <<m, "OK", None, v>>
        Done(m2) == <<m2, "OK", None, None>>
        Fail(code) == <<m, code, None, None>>
        Ans(x) == <<m, "OK", x, None>>
        New(o) == LET m2 == Alloc(m, o) IN <<m2, "OK", None, Last(m2)>>
        Huge(i) == a[i][1] = "Z"
        Unspecified(why) == <<Abandon(m, why), "OK", None, None>>
        N(x) == <<"i", ToString(x)>>
        neutral == <<m, "OK", ApiDefault(fn), None>>
        Inside(v, i) == ~Huge(i) /\ a[i][2] < Len(v)
    IN
    IF fn = "same" THEN
        IF ~nolist THEN Ans(Bool(a[1][1] = "N" /\ a[2][1] = "N"))
        ELSE IF ~SameKnown(m, h(1), h(2)) THEN Unspecified("identity") ELSE Ans(Bool(h(1) = h(2)))
    ELSE IF ApiQuery(fn) THEN
        IF required # {} THEN neutral
        ELSE CASE fn = "kind" -> Ans(<<"k", KindName(m, h(1))>>)
               [] fn = "boolean_value" -> Ans(Bool(Truthy(h(1))))
               [] fn = "integer_value" -> IF h(1)[1] = "I" THEN Ans(<<"i", h(1)[2]>>) ELSE IF h(1)[1] = "i" THEN Ans(N(h(1)[2]))
                                          ELSE IF h(1)[1] = "f" THEN Ans(N(TruncDiv(h(1)[2], FS))) ELSE neutral
               [] fn = "float_value" -> IF h(1)[1] = "I" \/ (h(1)[1] = "i" /\ Abs(h(1)[2]) > 1000000) THEN Unspecified("float")
                                        ELSE IF Num(h(1)) THEN Ans(<<"f", FloatText(Fl(h(1)))>>) ELSE neutral
               [] fn = "buffer_is_pinned" -> Ans(Bool(Is(m, h(1), "buf")))
               [] fn = "buffer_size" -> IF Is(m, h(1), "buf") THEN Ans(N(Len(Obj(m, h(1)).v))) ELSE neutral
               [] fn = "buffer_put" -> IF ~Is(m, h(1), "buf") THEN neutral
                                       ELSE IF ~Inside(Obj(m, h(1)).v, 2) THEN Ans(Bool(TRUE))
                                       ELSE <<[m EXCEPT !.hp[h(1)[2]].v[a[2][2] + 1] = a[3][2]], "OK", Bool(TRUE), None>>
               [] fn = "tuple_size" -> IF Is(m, h(1), "tup") THEN Ans(N(Len(Obj(m, h(1)).v))) ELSE neutral
               [] fn = "array_size" -> IF Is(m, h(1), "arr") THEN Ans(N(Len(Obj(m, h(1)).v))) ELSE neutral
               [] fn = "is_success" -> Ans(Bool(Is(m, h(1), "res") /\ Obj(m, h(1)).ok))
               [] fn = "is_error" -> Ans(Bool(Is(m, h(1), "res") /\ ~Obj(m, h(1)).ok))
               [] fn = "coroutine_started" -> Ans(Bool(Is(m, h(1), "co") /\ CoStarted(m.cos[CoOf(m, h(1))])))
               [] fn = "coroutine_completed" -> Ans(Bool(Is(m, h(1), "co") /\ m.cos[CoOf(m, h(1))].st = "done"))
               [] fn = "has_ready" -> Ans(Bool(m.rq # <<>>))
               [] fn = "native_size" -> IF Is(m, h(1), "nat") THEN Ans(<<"i", Obj(m, h(1)).size>>) ELSE neutral
               [] fn = "native_type" -> IF Is(m, h(1), "nat") THEN Ans(<<"i", Obj(m, h(1)).align>>) ELSE neutral
               [] fn = "native_put" -> IF ~Is(m, h(1), "nat") THEN neutral ELSE <<[m EXCEPT !.hp[h(1)[2]].tag = a[2][2]], "OK", Bool(TRUE), None>>
               [] OTHER -> IF VmSetting(m, "page") = "" \/ VmSetting(m, "max") = "" THEN Unspecified("settings")
                           ELSE Ans(<<"vm", VmSetting(m, "page"), VmSetting(m, "max"), TRUE>>)
    ELSE IF fn = "null_frames" THEN Ans(<<"codes", [i \in 1..20 |-> "BAD_ARG"], "0">>)
    ELSE IF required # {} \/ (\E i \in 1..Len(a) : BadText(a[i])) \/ fn = "load_bytecode" THEN Fail("BAD_ARG")
    ELSE
    CASE fn = "to_string" -> Ok(<<"s", IF HasText(m, h(1)) /\ ~Wild(m, <<h(1)>>) THEN Text(m, h(1)) ELSE ERR>>)
      [] fn = "copy" -> Ok(h(1))
      [] fn = "type" -> Ok(<<"ty", TypeName(m, h(1))>>)
      [] fn = "kind_type" -> IF KindType(a[1][2]) = "" THEN Fail("BAD_ARG") ELSE Ok(<<"ty", KindType(a[1][2])>>)
      [] fn = "make_null" -> Ok(Nul)
      [] fn = "make_boolean" -> Ok(Bool(a[1][2]))
      [] fn = "make_integer" -> Ok(IF a[1][1] = "I" THEN <<"I", a[1][2]>> ELSE IntV(a[1][3]))
      [] fn = "make_float" -> Ok(<<"f", a[1][3]>>)
      [] fn = "make_string" -> Ok(<<"s", a[1][2]>>)
      [] fn \in {"string_value", "string_cstr"} ->
            IF ~a[2][2] THEN Fail("BAD_ARG") ELSE IF h(1)[1] # "s" THEN Fail("BAD_TYPE") ELSE Ans(<<"s", h(1)[2]>>)
      [] fn = "make_buffer" -> IF Huge(1) THEN Fail("ALLOC") ELSE New([k |-> "buf", v |-> [i \in 1..a[1][2] |-> 0]])
      [] fn = "make_tuple" -> IF Huge(1) THEN Fail("ALLOC") ELSE New([k |-> "tup", v |-> [i \in 1..a[1][2] |-> Nul]])
      [] fn = "make_array" -> IF Huge(1) THEN Fail("ALLOC") ELSE New([k |-> "arr", v |-> <<>>])
      [] fn = "tuple_get" -> IF ~Is(m, h(1), "tup") THEN Fail("BAD_TYPE") ELSE IF ~Inside(Obj(m, h(1)).v, 2) THEN Fail("OUT_OF_BOUNDS") ELSE Ok(Obj(m, h(1)).v[a[2][2] + 1])
      [] fn = "array_get" -> IF ~Is(m, h(1), "arr") THEN Fail("BAD_TYPE") ELSE IF ~Inside(Obj(m, h(1)).v, 2) THEN Fail("OUT_OF_BOUNDS") ELSE Ok(Obj(m, h(1)).v[a[2][2] + 1])
      [] fn \in {"tuple_set", "array_set"} ->
            IF ~Is(m, h(1), IF fn = "tuple_set" THEN "tup" ELSE "arr") THEN Fail("BAD_TYPE")
            ELSE IF ~Inside(Obj(m, h(1)).v, 2) THEN Fail("OUT_OF_BOUNDS")
            ELSE Done([m EXCEPT !.hp[h(1)[2]].v[a[2][2] + 1] = h(3)])
      [] fn = "array_push" -> IF ~Is(m, h(1), "arr") THEN Fail("BAD_TYPE") ELSE Done([m EXCEPT !.hp[h(1)[2]].v = Append(@, h(2))])
      [] fn = "array_pop" -> IF ~Is(m, h(1), "arr") THEN Fail("BAD_TYPE") ELSE IF Obj(m, h(1)).v = <<>> THEN Fail("OUT_OF_BOUNDS")
                             ELSE Done([m EXCEPT !.hp[h(1)[2]].v = SubSeq(@, 1, Len(@) - 1)])
      [] fn = "array_clear" -> IF ~Is(m, h(1), "arr") THEN Fail("BAD_TYPE") ELSE Done([m EXCEPT !.hp[h(1)[2]].v = <<>>])
      [] fn = "make_record_schema" ->
            IF ~Is(m, h(1), "arr") THEN Fail("BAD_TYPE")
            ELSE LET v == Obj(m, h(1)).v IN
                 IF \E i \in 1..Len(v) : v[i][1] # "s" THEN Fail("BAD_TYPE")
                 ELSE IF (\E i, j \in 1..Len(v) : i # j /\ v[i] = v[j]) \/ (\E i \in 1..Len(v) : v[i][2] = ERR) THEN Unspecified("keys")
                 ELSE New([k |-> "schema", ks |-> [i \in 1..Len(v) |-> v[i][2]]])
      [] fn = "make_record" -> IF ~Is(m, h(1), "schema") THEN Fail("BAD_TYPE")
                               ELSE New([k |-> "rec", ks |-> Obj(m, h(1)).ks, vs |-> [i \in 1..Len(Obj(m, h(1)).ks) |-> Nul]])
      [] fn = "record_keys" -> IF ~Is(m, h(1), "rec") THEN Fail("BAD_TYPE")
                               ELSE New([k |-> "arr", v |-> [i \in 1..Len(Obj(m, h(1)).ks) |-> <<"s", Obj(m, h(1)).ks[i]>>]])
      [] fn \in {"record_get", "record_set"} ->
            IF ~Is(m, h(1), "rec") \/ h(2)[1] # "s" THEN Fail("BAD_TYPE")
            ELSE IF h(2)[2] = ERR THEN Unspecified("key")
            ELSE LET p == RecIndex(m, h(1), h(2)[2]) IN
                 IF p = 0 THEN Fail("BAD_KEY")
                 ELSE IF fn = "record_get" THEN Ok(Obj(m, h(1)).vs[p]) ELSE Done([m EXCEPT !.hp[h(1)[2]].vs[p] = h(3)])
      [] fn = "make_success" -> New([k |-> "res", ok |-> TRUE, v |-> h(1)])
      [] fn = "make_error" -> New([k |-> "res", ok |-> FALSE, v |-> h(1)])
      [] fn \in {"result_value", "result_error"} ->
            IF ~Is(m, h(1), "res") THEN Fail("BAD_TYPE") ELSE IF Obj(m, h(1)).ok # (fn = "result_value") THEN Fail("BAD_STATE") ELSE Ok(Obj(m, h(1)).v)
      [] fn = "exception_message" -> IF ~Is(m, h(1), "ex") THEN Fail("BAD_TYPE") ELSE Ok(<<"s", Obj(m, h(1)).msg>>)
      [] fn = "exception_trace" -> IF ~Is(m, h(1), "ex") THEN Fail("BAD_TYPE") ELSE Ok(IF Obj(m, h(1)).th THEN <<"s", ERR>> ELSE Nul)
      [] fn = "make_coroutine" ->
            LET args == IF a[2][1] = "N" THEN Nul ELSE h(2) IN
            IF ~IsFunc(m, h(1)) \/ ~(args = Nul \/ Is(m, args, "tup")) THEN Fail("BAD_TYPE")
            ELSE LET m2 == MakeCo(m, h(1), IF args = Nul THEN <<>> ELSE Obj(m, args).v) IN <<m2, "OK", None, Last(m2)>>
      [] fn = "coroutine_start" ->
            IF ~Is(m, h(1), "co") THEN Fail("BAD_TYPE") ELSE IF m.cos[CoOf(m, h(1))].st # "new" THEN Fail("BAD_STATE") ELSE Done(StartCo(m, CoOf(m, h(1))))
      [] fn = "coroutine_result" ->
            IF ~Is(m, h(1), "co") THEN Fail("BAD_TYPE") ELSE IF m.cos[CoOf(m, h(1))].st # "done" THEN Fail("BAD_STATE") ELSE Ok(m.cos[CoOf(m, h(1))].res)
      [] fn = "make_module" ->
            LET ms == ApiMembers(m, a) IN
            IF a[1][2] = "" \/ ~a[2][2] \/ (\E i \in 1..Len(ms) : ms[i][1][2] = "") THEN Fail("BAD_ARG")
            ELSE LET r == HostModuleCells(m, ms, EmptyFn)
                     m2 == Alloc(r[1], [k |-> "hm", name |-> a[1][2], cells |-> r[2]])
                 IN <<m2, "OK", None, Last(m2)>>
      [] fn = "module_get_export" ->
            IF a[2][2] = "" THEN Fail("BAD_ARG")
            ELSE IF Is(m, h(1), "hm") THEN (IF a[2][2] \in DOMAIN Obj(m, h(1)).cells THEN Ok(m.st[Obj(m, h(1)).cells[a[2][2]]]) ELSE Fail("EXPORT_NOT_FOUND"))
            ELSE IF h(1)[1] # "mod" THEN Fail("BAD_TYPE")
            ELSE LET v == Export(m, h(1)[2], a[2][2]) IN IF v = None THEN Fail("EXPORT_NOT_FOUND") ELSE IF v = Undef THEN Unspecified("undef") ELSE Ok(v)
      [] fn = "load_module" ->
            LET name == IF Is(m, h(1), "hm") THEN Obj(m, h(1)).name ELSE IF h(1)[1] = "mod" THEN h(1)[2] ELSE "" IN
            IF name = "" THEN Fail("BAD_TYPE")
            ELSE IF name \in DOMAIN m.mods THEN Fail("MODULE_EXISTS")
            ELSE LET cells == Obj(m, h(1)).cells IN Done([m EXCEPT !.mods = (name :> [init |-> TRUE, cells |-> cells, exports |-> DOMAIN cells, deps |-> <<>>]) @@ @])
      [] fn = "load_std" -> IF "std" \in DOMAIN m.mods THEN Fail("MODULE_EXISTS") ELSE Done(LoadStd(m))
      [] fn = "get_export" ->
            IF a[1][2] = "" \/ a[2][2] = "" THEN Fail("BAD_ARG")
            ELSE IF a[1][2] \notin DOMAIN m.mods THEN Fail("MODULE_NOT_FOUND")
            ELSE LET o == InitOrder(m, a[1][2], {}, [todo |-> <<>>, err |-> ""]) IN
                 IF o.err # "" \/ (\E i \in 1..Len(o.todo) : HasInit(m, o.todo[i])) THEN Unspecified("initialisation")
                 ELSE LET v == Export(m, a[1][2], a[2][2]) IN
                      IF v = None THEN Fail("EXPORT_NOT_FOUND") ELSE IF v = Undef THEN Unspecified("undef") ELSE Ok(v)
      [] fn = "run_ready" -> Fail("INTERNAL")       \* the machine runs already
      [] fn = "type_name" -> IF h(1)[1] # "ty" THEN Fail("BAD_TYPE") ELSE Ok(<<"s", h(1)[2]>>)
      [] fn = "make_native" ->
            IF ~a[3][2] \/ (~Huge(2) /\ a[2][2] \notin Pow2) \/ (~Huge(1) /\ a[1][2] = 0) THEN Fail("BAD_ARG")
            ELSE IF Huge(2) \/ Huge(1) \/ a[2][2] > 16 THEN Fail("ALLOC")
            ELSE New([k |-> "nat", tag |-> "", size |-> ToString(a[1][2]), align |-> ToString(a[2][2])])
      [] fn \in {"make_sync_function", "make_async_function", "make_resumable_function"} ->
            IF ~a[2][2] \/ Huge(3) \/ a[3][2] > 1024 \/ (fn = "make_resumable_function" /\ (Huge(6) \/ a[6][2] > 16384)) THEN Fail("BAD_ARG")
            ELSE IF h(1)[1] # "s" THEN Fail("BAD_TYPE")
            ELSE LET def == [name |-> h(1)[2], flavour |-> CASE fn = "make_sync_function" -> "sync" [] fn = "make_async_function" -> "async" [] OTHER -> "resumable",
                             argc |-> a[3][2], locals |-> 0, closure |-> Nul, program |-> <<>>]
                 IN <<[m EXCEPT !.nats = Append(@, def)], "OK", None, <<"nf", Len(m.nats) + 1>>>>
      [] OTHER -> Unspecified("api " \o fn)

ApiEvent(m, c, code, answer) ==
    LET fn == c[3]
        mode == IF Len(c) > 4 THEN c[5] ELSE ""
        out == ApiOut(fn)
        rc == CASE mode = "noerr" -> "-" [] mode = "kept" -> "kept" [] OTHER -> code
        val == IF answer # None THEN answer ELSE IF out # 0 /\ c[4][out][1] # "N" THEN Render(m, Reg(m, c[4][out][2]), 0)
               ELSE IF fn \in {"string_value", "string_cstr"} THEN <<"s", "untouched">> ELSE None
    IN Emit(m, <<"api", fn, rc, val>>)
Api(m, c) ==
    LET fn == c[3]
        mode == IF Len(c) > 4 THEN c[5] ELSE ""
        out == ApiOut(fn)
        r == IF mode # "novm" THEN ApiDo(m, fn, c[4])
             ELSE IF fn \in {"same", "null_frames"} THEN ApiDo(m, fn, c[4])
             ELSE IF fn = "make_null" \/ ApiQuery(fn) THEN <<m, "OK", ApiDefault(fn), None>> ELSE <<m, "BAD_ARG", None, None>>
        code == IF fn = "make_null" THEN "OK" ELSE r[2]
        m2 == IF out # 0 /\ r[4] # None /\ c[4][out][1] # "N" THEN SetReg(r[1], c[4][out][2], r[4]) ELSE r[1]
    IN IF r[1].ab # "" THEN r[1] ELSE ApiEvent(m2, c, code, r[3])

(* ["fault", happened, command]: an allocation of the command failed; the command has no effect and reports it. *)
Faulted(m, c) ==
    LET name == c[1] IN
    CASE name = "api" -> ApiEvent(m, c, "ALLOC", None)
      [] name \in {"set", "load", "module", "coro", "start"} -> Emit(m, <<name, c[3], "ALLOC">>)
      [] name = "native" -> Emit(SetReg(m, c[3], Nul), <<name, c[3], "ALLOC">>)
      [] name = "callback" -> Emit(IF Len(c) <= 4 \/ c[5] THEN Emit(m, <<"cleanup", c[4]>>) ELSE m, <<name, c[4], "ALLOC">>)
      [] OTHER -> Abandon(m, "fault in " \o name)
RECURSIVE HostCmd(_, _)
HostCmd(m, c) ==
    LET name == c[1] IN
    CASE name = "vm" -> m
      [] name = "fault" -> LET m2 == IF c[2] THEN Faulted(m, c[3]) ELSE HostCmd(m, c[3]) IN
                           IF m2.ab # "" THEN m2 ELSE Emit(m2, <<"fault", c[2]>>)
      [] name = "std" -> IF "std" \in DOMAIN m.mods THEN Emit(m, <<"std", "MODULE_EXISTS">>) ELSE LoadStd(m)
      [] name = "mark" -> Emit(m, c)
      [] name = "api" -> Api(m, c)
      [] name = "export" -> NestedExport(m, c)
      [] name \in {"gcperiod", "gc", "drop", "quiet"} -> IF name = "drop" THEN [m EXCEPT !.regs = [r \in DOMAIN @ \ {c[3]} |-> @[r]]] ELSE m
      [] name = "load" -> Load(m, c[3])
      [] name = "native" ->
            LET d == c[4]
                r == IF "closure" \in DOMAIN d THEN Make(m, d.closure, <<>>) ELSE <<m, Nul>>
                def == [name |-> Opt(d, "name", c[3]), flavour |-> d.flavour, argc |-> Opt(d, "argc", 0), locals |-> Opt(d, "locals", 0),
                        closure |-> r[2], program |-> Opt(d, "program", <<>>)]
            IN IF def.argc > 1024 \/ (d.flavour = "resumable" /\ def.locals > 16384) THEN Emit(SetReg(m, c[3], Nul), <<"native", c[3], "BAD_ARG">>)
               ELSE SetReg([r[1] EXCEPT !.nats = Append(@, def)], c[3], <<"nf", Len(r[1].nats) + 1>>)
      [] name = "module" -> LoadNative(m, c[3], c[4])
      [] name = "set" -> LET r == Make(m, c[4], <<>>) IN SetReg(r[1], c[3], r[2])
      [] name = "show" -> Emit(m, <<"show", c[3], Render(m, Reg(m, c[3]), 0)>>)
      [] name = "same" -> Emit(m, <<"same", Reg(m, c[3]) = Reg(m, c[4])>>)
      [] name = "coro" ->
            LET none == c[5][1] = "NULL"
                r == IF none THEN <<m, Nul>> ELSE Make(m, c[5], <<>>)
                m2 == r[1]
                f == Reg(m, c[4])
            IN IF ~IsFunc(m2, f) THEN Emit(m2, <<"coro", c[3], "BAD_TYPE">>)
               ELSE IF r[2] # Nul /\ ~Is(m2, r[2], "tup") THEN Emit(m2, <<"coro", c[3], "BAD_TYPE">>)
               ELSE LET m3 == MakeCo(m2, f, IF r[2] = Nul THEN <<>> ELSE Obj(m2, r[2]).v) IN
                    Emit(SetReg(m3, c[3], Last(m3)), <<"coro", c[3], "OK">>)
      [] name = "start" ->
            LET v == Reg(m, c[3]) IN
            IF ~Is(m, v, "co") THEN Emit(m, <<"start", c[3], "BAD_TYPE">>)
            ELSE IF m.cos[CoOf(m, v)].st # "new" THEN Emit(m, <<"start", c[3], "BAD_STATE">>)
            ELSE Emit(StartCo(m, CoOf(m, v)), <<"start", c[3], "OK">>)
      [] name = "ready" -> Emit(m, <<"ready", m.rq # <<>> >>)
      [] name = "status" ->
            LET v == Reg(m, c[3]) IN
            IF ~Is(m, v, "co") THEN Emit(m, <<"status", c[3], FALSE, FALSE, "BAD_TYPE", Nul>>)
            ELSE LET co == m.cos[CoOf(m, v)] IN
                 IF co.st = "done" THEN Emit(m, <<"status", c[3], TRUE, TRUE, "OK", Render(m, co.res, 0)>>)
                 ELSE Emit(m, <<"status", c[3], CoStarted(co), FALSE, "BAD_STATE", Nul>>)
      [] name = "callback" ->
            \* ["callback", vm, reg, tag, with cleanup, with callback, actions]
            LET v == Reg(m, c[3])
                cleanup == IF Len(c) > 4 THEN c[5] ELSE TRUE
                cb == IF Len(c) > 5 THEN c[6] ELSE TRUE
                acts == IF Len(c) > 6 THEN c[7] ELSE <<>>
                Fail(mm, code) == Emit(IF cleanup THEN Emit(mm, <<"cleanup", c[4]>>) ELSE mm, <<"callback", c[4], code>>)
            IN IF ~cb THEN Fail(m, "BAD_ARG")
               ELSE IF ~Is(m, v, "co") THEN Fail(m, "BAD_TYPE")
               ELSE \* a later registration replaces an earlier one, which is only cleaned up
                    Emit([m EXCEPT !.cos[CoOf(m, v)].old = @ \o m.cos[CoOf(m, v)].cb, !.cos[CoOf(m, v)].cb = <<[tag |-> c[4], cleanup |-> cleanup, acts |-> acts]>>], <<"callback", c[4], "OK">>)
      [] name \in {"tokret", "tokpanic"} ->
            IF c[3] \notin DOMAIN m.toks THEN Emit(m, <<name, c[3], "NOTOKEN">>)
            ELSE LET r == IF name = "tokret" THEN Make(m, c[4], <<>>) ELSE <<m, Nul>>
                     m2 == r[1]
                     t == HostTok(m, c)
                 IN IF ~TokUsable(m2, t) THEN Emit(m2, <<name, c[3], "INTERNAL">>)
                    ELSE IF name = "tokret" THEN Emit(ResumeCo(m2, t.co, <<"rt", r[2]>>), <<name, c[3], "OK">>)
                    ELSE LET m3 == NewEx(m2, c[4]) IN
                         Emit(ResumeCo(m3, t.co, <<"pn", Last(m3)>>), <<name, c[3], "OK">>)
      [] name = "tokfree" -> IF c[3] \notin DOMAIN m.toks THEN Emit(m, <<name, c[3], "NOTOKEN">>)
                             ELSE Emit([m EXCEPT !.toks = [t \in DOMAIN @ \ {c[3]} |-> @[t]]], <<name, c[3], "OK">>)
      [] name = "run" -> Emit(m, <<"run", "INTERNAL">>)    \* only reached when the machine is running already
      [] OTHER -> Abandon(m, "host command " \o name)

(* operations of a native function; r = [m, act, state, locals]; act = what happens after the native code returned *)
RECURSIVE RunOps(_, _, _)
NEvent(m, fr, e) == Emit(m, <<"n", fr.name>> \o e)
OpLog(r, fr, op) ==
    LET x == MakeAll(r.m, SubSeq(op, 3, Len(op)), [fr EXCEPT !.locals = r.locals], <<>>) IN
    NEvent(x[1], fr, <<op[2]>> \o RenderAll(x[1], x[2], 0))
RunOps(r, fr, ops) ==
    IF ops = <<>> THEN r ELSE
    LET op == ops[1]
        k == op[1]
        f2 == [fr EXCEPT !.locals = r.locals]
        res ==
          CASE k = "log" -> [r EXCEPT !.m = OpLog(r, fr, op)]
            [] k = "args" -> [r EXCEPT !.m = NEvent(r.m, fr, <<"args", RenderAll(r.m, fr.args, 0), "OUT_OF_BOUNDS">>)]
            [] k = "ret" -> LET x == Make(r.m, op[2], f2) IN [r EXCEPT !.m = x[1], !.act = <<"ret", x[2]>>, !.state = -1]
            [] k = "panic" -> LET m2 == NewEx(r.m, TextOf(r.m, fr, op[2])) IN
                              [r EXCEPT !.m = m2, !.act = <<"pn", Last(m2)>>, !.state = -1]
            [] k = "tok" -> LET m2 == GetTok(r.m, r.m.cur)
                                t == Obj(m2, m2.cos[m2.cur].tok)
                                n == TextOf(r.m, fr, op[2])
                            IN [r EXCEPT !.m = [m2 EXCEPT !.toks = (n :> [co |-> t.co, gen |-> t.gen]) @@ @], !.tok = TRUE]
            [] k = "yield" -> [r EXCEPT !.act = <<"yield">>]
            [] k = "state" -> [r EXCEPT !.state = op[2]]
            [] k = "setlocal" -> LET x == Make(r.m, op[3], f2) IN
                                 IF op[2] >= Len(r.locals) THEN [r EXCEPT !.m = NEvent(x[1], fr, <<"setlocal", "OUT_OF_BOUNDS">>)]
                                 ELSE [r EXCEPT !.m = x[1], !.locals[op[2] + 1] = x[2]]
            [] k = "invoke" -> LET x == Make(r.m, op[3], f2)
                                   none == op[4][1] = "NULL"
                                   y == IF none THEN <<x[1], Nul>> ELSE Make(x[1], op[4], f2)
                               IN IF ~IsFunc(y[1], x[2]) \/ (y[2] # Nul /\ ~Is(y[1], y[2], "tup"))
                                  THEN [r EXCEPT !.m = NEvent(y[1], fr, <<"invoke", "BAD_TYPE">>)]
                                  ELSE [r EXCEPT !.m = y[1], !.act = <<"inv", x[2], IF y[2] = Nul THEN <<>> ELSE Obj(y[1], y[2]).v>>, !.state = op[2]]
            [] k = "cmd" -> [r EXCEPT !.m = HostCmd(r.m, op[2])]
            [] OTHER -> [r EXCEPT !.m = Abandon(r.m, "native operation")]
    IN RunOps(res, fr, Tail(ops))

NatFrame(m, i, args, locals, inv) == [name |-> NatDef(m, i).name, args |-> args, closure |-> NatDef(m, i).closure, locals |-> locals, inv |-> inv]
OpsStart(m, locals, state) == [m |-> m, act |-> <<"none">>, state |-> state, locals |-> locals, tok |-> FALSE]

OpsOf(d, state) == IF ToString(state) \in DOMAIN d.program THEN d.program[ToString(state)] ELSE <<>>

(* one invocation of a resumable function *)
ResumableBody(m, i, args, locals, inv, state) ==
    LET d == NatDef(m, i) IN
    IF state = -1 THEN Ret(m, Nul)
    ELSE LET m1 == Emit(m, <<"rs", d.name, ToString(state), RenderAll(m, args, 0), RenderAll(m, locals, 0)>>)
             r == RunOps(OpsStart(m1, locals, state), NatFrame(m, i, args, locals, inv), OpsOf(d, state))
             m2 == r.m
         IN CASE r.act[1] = "ret" -> Ret(m2, r.act[2])
              [] r.act[1] = "pn" -> [m2 EXCEPT !.ctl = r.act]
              [] r.act[1] = "inv" -> [m2 EXCEPT !.ctl = <<"call", r.act[2], r.act[3]>>, !.k = <<<<"rsm", i, args, r.locals, r.state>>, @>>]
              [] OTHER -> IF r.state = state THEN Abandon(m2, "endless resumable") ELSE [m2 EXCEPT !.ctl = <<"rsm", i, args, r.locals, r.state>>]

Resumable(m, i, args, locals, inv, state) == In(ResumableBody(In(m, NatDef(m, i).name), i, args, locals, inv, state), "")

NativeBody(m, i, args) ==
    LET d == NatDef(m, i) IN
         CASE d.flavour = "trace" ->
                 IF args = <<>> THEN Ret(Emit(m, <<"t">>), Nul)
                 ELSE Ret(Emit(m, <<"t">> \o RenderAll(m, args, 0)), args[Len(args)])
           [] d.flavour = "native" ->
                 LET t == TextArg(m, args, 0) IN RetNew(m, [k |-> "nat", tag |-> t, size |-> ToString(Len(t) + 1), align |-> "1"])
           [] d.flavour = "resumable" -> Resumable(m, i, args, [j \in 1..d.locals |-> Nul], Nul, 0)
           [] OTHER ->
                 LET r == RunOps(OpsStart(m, <<>>, 0), NatFrame(m, i, args, <<>>, Nul), d.program)
                     m2 == r.m
                 IN CASE r.act[1] = "ret" -> Ret(IF r.tok THEN ResetTok(m2, m2.cur) ELSE m2, r.act[2])
                      [] r.act[1] = "pn" -> LET m3 == (IF r.tok THEN ResetTok(m2, m2.cur) ELSE m2) IN [m3 EXCEPT !.ctl = r.act]
                      [] r.act[1] = "yield" -> Suspend([m2 EXCEPT !.cos[m2.cur].what = "async"], "waiting", <<"rt", Nul>>)
                      [] OTHER -> Ret(IF r.tok THEN ResetTok(m2, m2.cur) ELSE m2, Nul)

-----------------------------------------------------------------------------
(* Functions of the std module and built in methods. *)
StdBody(m, name, args) ==
         CASE name = "print" -> IF ~AllText(m, args) THEN Abandon(m, "text")
                                ELSE Ret(Emit(m, <<"print", IF Wild(m, args) THEN ERR ELSE Join(m, args) \o "\n">>), Nul)
           [] name = "success" -> RetNew(m, [k |-> "res", ok |-> TRUE, v |-> args[1]])
           [] name = "error" -> RetNew(m, [k |-> "res", ok |-> FALSE, v |-> args[1]])
           [] name = "panic" -> IF Is(m, args[1], "ex") THEN [m EXCEPT !.ctl = <<"pn", args[1]>>]
                                ELSE IF HasText(m, args[1]) THEN PanicMsg(m, Text(m, args[1])) ELSE PanicErr(m)
           [] name = "launch" -> IF ~IsFunc(m, args[1]) THEN Abandon(m, "launch of a non function")
                                 ELSE LET m2 == MakeCo(m, args[1], Tail(args)) IN Ret(StartCo(m2, Len(m2.cos)), Last(m2))
           [] name = "current_coroutine" -> Ret(m, m.cos[m.cur].val)
           [] name = "coroutine_token" -> LET m2 == GetTok(m, m.cur) IN Ret(m2, m2.cos[m.cur].tok)
           [] name = "yield_coroutine" -> Suspend([m EXCEPT !.cos[m.cur].what = "script"], "waiting", <<"rt", Nul>>)
           [] name = "dispatch" -> Suspend(m, "ready", <<"rt", Nul>>)
           [] name = "new_string_builder" -> RetNew(m, [k |-> "sb", s |-> ""])
           [] name = "new_buffer" -> IF args[1][1] = "I" THEN Abandon(m, "buffer") ELSE IF args[1][1] # "i" \/ args[1][2] < 0 THEN PanicErr(m)
                                     ELSE IF args[1][2] > 10000 THEN Abandon(m, "buffer")
                                     ELSE RetNew(m, [k |-> "buf", v |-> [i \in 1..args[1][2] |-> 0]])
           [] name = "catch_panic" -> [m EXCEPT !.k = <<<<"catch">>, @>>, !.ctl = <<"call", args[1], <<>> >>]
           [] name = "type_of" -> Ret(m, <<"ty", TypeName(m, args[1])>>)
           [] OTHER -> Abandon(m, "std." \o name)

SliceArgs(m, args, i) == args[i][1] = "i"
MethodBody(m, type, name, args) ==
    IF TypeName(m, args[1]) # type THEN PanicErr(m)
    ELSE LET o == args[1]
             O == Obj(m, o)
             s == StrOf(m, o)
         IN
         CASE type = "Array" ->
                (CASE name = "size" -> Ret(m, IntV(Len(O.v)))
                   [] name = "append" -> Ret([m EXCEPT !.hp[o[2]].v = Append(@, args[2])], Nul)
                   [] OTHER -> Ret([m EXCEPT !.hp[o[2]].v = <<>>], Nul))
           [] type = "Tuple" -> Ret(m, IntV(Len(O.v)))
           [] type = "Buffer" -> Ret(m, IntV(Len(O.v)))
           [] type = "Map" ->
                (CASE name = "size" -> Ret(m, IntV(Len(O.ks)))
                   [] name = "contains" -> Ret(m, Bool(KeyIndex(m, O.ks, args[2], 1) # 0))
                   [] name = "keys" -> RetNew(m, [k |-> "view", w |-> "k", t |-> o])
                   [] name = "values" -> RetNew(m, [k |-> "view", w |-> "v", t |-> o])
                   [] name = "clear" -> Ret([m EXCEPT !.hp[o[2]].ks = <<>>, !.hp[o[2]].vs = <<>>, !.hp[o[2]].mv = @ + 1], Nul)
                   [] OTHER -> LET p == KeyIndex(m, O.ks, args[2], 1) IN
                               Ret(IF p = 0 THEN m ELSE [m EXCEPT !.hp[o[2]].ks = RemoveAt(@, p), !.hp[o[2]].vs = RemoveAt(@, p), !.hp[o[2]].mv = @ + 1], Nul))
           [] type = "Set" ->
                (CASE name = "size" -> Ret(m, IntV(Len(O.v)))
                   [] name = "contains" -> Ret(m, Bool(KeyIndex(m, O.v, args[2], 1) # 0))
                   [] name = "clear" -> Ret([m EXCEPT !.hp[o[2]].v = <<>>, !.hp[o[2]].mv = @ + 1], Nul)
                   [] name = "insert" -> IF KeyIndex(m, O.v, args[2], 1) # 0 THEN Ret(m, Bool(FALSE))
                                         ELSE Ret([m EXCEPT !.hp[o[2]].v = Append(@, args[2]), !.hp[o[2]].mv = IF @ = 0 THEN 0 ELSE @ + 1], Bool(TRUE))
                   [] OTHER -> LET p == KeyIndex(m, O.v, args[2], 1) IN
                               Ret(IF p = 0 THEN m ELSE [m EXCEPT !.hp[o[2]].v = RemoveAt(@, p), !.hp[o[2]].mv = @ + 1], Nul))
           [] type = "Result" ->
                (CASE name = "type" -> Ret(m, <<"y", IF O.ok THEN "success" ELSE "error">>)
                   [] name = "is_success" -> Ret(m, Bool(O.ok))
                   [] name = "is_error" -> Ret(m, Bool(~O.ok))
                   [] name = "value" -> IF O.ok THEN Ret(m, O.v) ELSE PanicErr(m)
                   [] OTHER -> IF ~O.ok THEN Ret(m, O.v) ELSE PanicErr(m))
           [] type = "Exception" -> IF name = "message" THEN Ret(m, <<"s", O.msg>>) ELSE Ret(m, IF O.th THEN <<"s", ERR>> ELSE Nul)
           [] type = "CoroutineToken" ->
                (CASE name = "coroutine" -> Ret(m, m.cos[O.co].val)
                   [] name = "valid" -> Ret(m, Bool(TokValid(m, O)))
                   [] OTHER -> IF TokValid(m, O) /\ m.cos[O.co].st = "waiting" THEN Ret(ResumeCo(m, O.co, m.cos[O.co].rv), Bool(TRUE))
                               ELSE Ret(m, Bool(FALSE)))
           [] type = "Coroutine" -> Ret(m, <<"s", ERR>>)
           [] type = "Type" -> Ret(m, <<"s", o[2]>>)
           [] type \in {"String", "StringSlice"} ->
                IF s = ERR THEN Abandon(m, "message text") ELSE
                (CASE name = "size" -> Ret(m, IntV(Len(s)))
                   [] name = "contains" -> IF IsStr(m, args[2]) THEN Ret(m, Bool(Contains(s, StrOf(m, args[2])))) ELSE PanicErr(m)
                   [] name = "slice_first" -> IF args[2][1] = "i" THEN Slice(m, SubSeq(s, 1, Min(Clamp(args[2]), Len(s)))) ELSE PanicErr(m)
                   [] name = "slice_last" -> IF args[2][1] = "i" THEN Slice(m, SubSeq(s, Len(s) - Min(Clamp(args[2]), Len(s)) + 1, Len(s))) ELSE PanicErr(m)
                   [] name = "slice" -> IF args[2][1] # "i" \/ args[3][1] # "i" THEN PanicErr(m)
                                        ELSE LET off == Min(Clamp(args[2]), Len(s)) IN
                                             Slice(m, SubSeq(s, off + 1, off + Min(Clamp(args[3]), Len(s) - off)))
                   [] OTHER -> Ret(m, <<"s", s>>))
           [] type = "StringBuilder" ->
                (CASE name = "append" -> IF ~AllText(m, Tail(args)) \/ Wild(m, Tail(args)) THEN Abandon(m, "text")
                                         ELSE Ret([m EXCEPT !.hp[o[2]].s = @ \o Concat(m, Tail(args))], Nul)
                   [] name = "clear" -> Ret([m EXCEPT !.hp[o[2]].s = ""], Nul)
                   [] name = "size" -> Ret(m, IntV(Len(O.s)))
                   [] name = "contains" -> IF IsStr(m, args[2]) THEN Ret(m, Bool(Contains(O.s, StrOf(m, args[2])))) ELSE PanicErr(m)
                   [] name = "to_string" -> Ret(m, <<"s", O.s>>)
                   [] OTHER -> IF args[2][1] = "i" /\ args[2][2] \in 97..101
                               THEN Ret([m EXCEPT !.hp[o[2]].s = @ \o (CASE args[2][2] = 97 -> "a" [] args[2][2] = 98 -> "b" [] args[2][2] = 99 -> "c" [] args[2][2] = 100 -> "d" [] OTHER -> "e")], Nul)
                               ELSE IF args[2][1] = "i" /\ args[2][2] >= 0 /\ args[2][2] <= 255 THEN Abandon(m, "bytes") ELSE PanicErr(m))
           [] OTHER -> Abandon(m, "method")

(* Calls of native functions of any kind: too few arguments are noticed before the function is active. *)
CallNative(m, i, args) ==
    LET d == NatDef(m, i) IN
    IF Len(args) < d.argc THEN PanicErr(m) ELSE In(NativeBody(In(m, d.name), i, args), "")
CallStd(m, name, args) ==
    IF Len(args) < StdParams(name) THEN PanicErr(m)
    ELSE In(StdBody(In(m, IF name \in {"panic", "catch_panic"} THEN "" ELSE name), name, args), "")
CallMethod(m, type, name, args) ==
    IF Len(args) < MethodParams(type, name) THEN PanicErr(m) ELSE In(MethodBody(In(m, name), type, name, args), "")

(* C07/C10: calling any value with arguments *)
EnterFn(m, id, env, args) ==
    LET n == Node(m, id) IN
    IF Len(args) # Len(n.s) THEN PanicErr(m)
    ELSE LET b == BindAll(m.st, env, n.s, args) IN
         [m EXCEPT !.st = b[1], !.k = <<<<"fnb", n.i % 2 = 1, IF n.n = "" THEN "<UNNAMED>" ELSE n.n>>, @>>, !.ctl = <<"ev", n.c[1], b[2]>>]
Call(m, f, args) ==
    CASE f[1] = "fnl" -> EnterFn(m, f[2], <<"M", Node(m, f[2]).x>>, args)
      [] Is(m, f, "clo") -> EnterFn(m, Obj(m, f).node, Obj(m, f).env, args)
      [] Is(m, f, "bm") -> [m EXCEPT !.ctl = <<"call", Obj(m, f).f, <<Obj(m, f).self>> \o args>>]
      [] f[1] = "std" -> CallStd(m, f[2], args)
      [] f[1] = "mth" -> CallMethod(m, f[2], f[3], args)
      [] f[1] = "nf" -> CallNative(m, f[2], args)
      [] OTHER -> PanicErr(m)

-----------------------------------------------------------------------------
(* Evaluation of strict nodes whose operands have been evaluated to vals. *)
Pairs(vals, first) == [i \in 1..(Len(vals) \div 2) |-> vals[2 * i - (IF first THEN 1 ELSE 0)]]
RECURSIVE PutAll(_, _, _, _, _)
PutAll(m, ks, vs, accK, accV) ==          \* -> <<keys, values>> with later duplicates overwriting
    IF ks = <<>> THEN <<accK, accV>>
    ELSE LET p == KeyIndex(m, accK, ks[1], 1) IN
         IF p = 0 THEN PutAll(m, Tail(ks), Tail(vs), Append(accK, ks[1]), Append(accV, vs[1]))
         ELSE PutAll(m, Tail(ks), Tail(vs), accK, [accV EXCEPT ![p] = vs[1]])
SetCell(m, cell, v) == [m EXCEPT !.st[cell] = v]
(* reads / stores an assignment target t = [k, n, i] with its evaluated operands *)
ReadTarget(m, t, ops, env) ==
    CASE t.k = "var" -> LET v == m.st[Cell(m, env, t.n)] IN IF v = Undef THEN Abandon(m, "undef") ELSE Ret(m, v)
      [] t.k = "mem" -> LoadMember(m, ops[1], t.n)
      [] t.k = "tf" -> TupleField(m, ops[1], t.i)
      [] OTHER -> LoadIndex(m, ops[1], ops[2])
StoreTarget(m, t, ops, v, env) ==
    CASE t.k = "var" -> Ret(SetCell(m, Cell(m, env, t.n), v), v)
      [] t.k = "mem" -> StoreMember(m, ops[1], t.n, v)
      [] t.k = "tf" -> StoreTupleField(m, ops[1], t.i, v)
      [] OTHER -> StoreIndex(m, ops[1], ops[2], v)
NOps(t) == CASE t.k = "var" -> 0 [] t.k = "idx" -> 2 [] OTHER -> 1
RECURSIVE AssignAll(_, _, _, _, _, _)
AssignAll(m, ts, i, ops, rhs, env) ==     \* (a, b.c, d[e]) = rhs
    IF ts = <<>> THEN Ret(m, rhs)
    ELSE LET m1 == TupleField(m, rhs, i) IN
         IF m1.ctl[1] # "rt" THEN m1
         ELSE LET n == NOps(ts[1])
                  m2 == StoreTarget(m1, ts[1], SubSeq(ops, 1, n), m1.ctl[2], env)
              IN IF m2.ctl[1] # "rt" THEN m2 ELSE AssignAll(m2, Tail(ts), i + 1, SubSeq(ops, n + 1, Len(ops)), rhs, env)

Apply(m, id, vals, env) ==
    LET n == Node(m, id)
        o == n.o
    IN
    CASE o = "bin" -> Binary(m, n.n, vals[1], vals[2])
      [] o = "un" -> Unary(m, n.n, vals[1])
      [] o = "call" -> [m EXCEPT !.ctl = <<"call", vals[1], Tail(vals)>>]
      [] o = "mcall" -> [m EXCEPT !.ctl = <<"call", vals[2], (IF BindsThis(m, vals[1]) THEN <<vals[1]>> ELSE <<>>) \o SubSeq(vals, 3, Len(vals))>>]
      [] o = "mem" -> LoadMember(m, vals[1], n.n)
      [] o = "tf" -> TupleField(m, vals[1], n.i)
      [] o = "idx" -> LoadIndex(m, vals[1], vals[2])
      [] o = "tup" -> RetNew(m, [k |-> "tup", v |-> vals])
      [] o = "arr" -> RetNew(m, [k |-> "arr", v |-> vals])
      [] o = "set" -> RetNew(m, [k |-> "set", v |-> PutAll(m, vals, vals, <<>>, <<>>)[1], mv |-> 0])
      [] o = "map" -> LET r == PutAll(m, Pairs(vals, TRUE), Pairs(vals, FALSE), <<>>, <<>>) IN RetNew(m, [k |-> "map", ks |-> r[1], vs |-> r[2], mv |-> 0])
      [] o = "rec" -> RetNew(m, [k |-> "rec", ks |-> n.s, vs |-> vals])
      [] o = "interp" -> IF ~AllText(m, vals) THEN Abandon(m, "text") ELSE Ret(m, <<"s", IF Wild(m, vals) THEN ERR ELSE Concat(m, vals)>>)
      [] o = "asg" -> LET t == n.t[1] IN StoreTarget(m, t, SubSeq(vals, 1, NOps(t)), vals[Len(vals)], env)
      [] o = "casg" ->     \* compound: operands, current value, right hand side
            LET t == n.t[1]
                c == Binary(m, n.n, vals[NOps(t) + 1], vals[NOps(t) + 2])
            IN IF c.ctl[1] # "rt" THEN c ELSE StoreTarget(c, t, SubSeq(vals, 1, NOps(t)), c.ctl[2], env)
      [] o = "tasg" -> AssignAll(m, n.t, 0, vals, vals[Len(vals)], env)
      [] o = "asrt" -> IF vals[1] = Nul \/ vals[1][1] = "s" THEN PanicErr(m) ELSE PanicErr(m)
      [] OTHER -> Abandon(m, "node " \o o)

(* the next operand of a strict node after vals have been evaluated; some nodes do work in between *)
RECURSIVE Advance(_, _, _, _)
Next1(m, id, vals, env, child) ==       \* evaluate the given child next
    LET n == Node(m, id) IN
    IF child > Len(n.c) THEN Apply(m, id, vals, env)
    ELSE [m EXCEPT !.k = <<<<"seq", id, vals, env>>, @>>, !.ctl = <<"ev", n.c[child], env>>]
RECURSIVE ToChain(_)
ToChain(k) == IF k[1][1] = "chain" THEN k[2] ELSE ToChain(k[2])
ShortCircuit(m) == [m EXCEPT !.k = ToChain(@), !.ctl = <<"rt", Nul>>]   \* C09: `?.` skips the rest of the chain
Advance(m, id, vals, env) ==
    LET n == Node(m, id)
        o == n.o
        j == Len(vals)
    IN
    IF o \in {"mem", "tf", "idx", "call"} /\ j = 1 /\ n.i2 = 1 /\ vals[1] = Nul THEN ShortCircuit(m)
    ELSE IF o = "mcall" THEN
        IF j = 0 THEN Next1(m, id, vals, env, 1)
        ELSE IF j = 1 THEN
            IF n.i2 \in {1, 3} /\ vals[1] = Nul THEN ShortCircuit(m)
            ELSE LET m1 == LoadMethod(m, vals[1], n.n) IN
                 IF m1.ctl[1] # "rt" THEN m1
                 ELSE IF n.i2 \in {2, 3} /\ m1.ctl[2] = Nul THEN ShortCircuit(m1)
                 ELSE Advance(m1, id, Append(vals, m1.ctl[2]), env)
        ELSE Next1(m, id, vals, env, j)
    ELSE IF o = "casg" THEN
        LET t == n.t[1] IN
        IF j < NOps(t) THEN Next1(m, id, vals, env, j + 1)
        ELSE IF j = NOps(t) THEN
            LET m1 == ReadTarget(m, t, vals, env) IN
            IF m1.ctl[1] # "rt" THEN m1 ELSE Advance(m1, id, Append(vals, m1.ctl[2]), env)
        ELSE IF j = NOps(t) + 1 THEN Next1(m, id, vals, env, j)
        ELSE Apply(m, id, vals, env)
    ELSE Next1(m, id, vals, env, j + 1)

-----------------------------------------------------------------------------
(* Statements *)
BlkFrame(id, idx, env, defers) == <<"blk", id, idx, env, defers>>
Strict == {"bin", "un", "call", "mcall", "mem", "tf", "idx", "tup", "arr", "set", "map", "rec", "interp", "asg", "casg", "tasg"}

(* continue block `id` after statement idx; v: value of that statement *)
RECURSIVE BlkNext(_, _, _, _, _, _)
BlkNext(m, id, idx, env, defers, v) ==
    LET n == Node(m, id) IN
    IF idx = Len(n.c) THEN       \* end of the scope: run the deferred expressions, then yield the value
        IF defers = <<>> THEN Ret(m, v)
        ELSE [m EXCEPT !.k = <<<<"dfr", Tail(defers), <<"rt", v>>>>, @>>, !.ctl = <<"ev", defers[1][1], defers[1][2]>>]
    ELSE LET s == Node(m, n.c[idx + 1]) IN
         CASE s.o = "defer" -> BlkNext(m, id, idx + 1, env, <<<<s.c[1], env>>>> \o defers, None)
           [] s.o \in {"decl", "dect"} /\ s.c = <<>> ->     \* without initialiser
                LET b == BindAll(m.st, env, s.s, [i \in 1..Len(s.s) |-> Nul]) IN
                BlkNext([m EXCEPT !.st = b[1]], id, idx + 1, b[2], defers, None)
           [] s.o \in {"decl", "dect"} ->
                [m EXCEPT !.k = <<BlkFrame(id, idx + 1, env, defers), @>>, !.ctl = <<"ev", s.c[1], env>>]
           [] s.o = "fdecl" ->                               \* local function: visible in its own body
                LET b == BindAll(m.st, env, s.s, <<Undef>>) IN
                [m EXCEPT !.st = b[1], !.k = <<BlkFrame(id, idx + 1, b[2], defers), @>>, !.ctl = <<"ev", s.c[1], b[2]>>]
           [] OTHER -> [m EXCEPT !.k = <<BlkFrame(id, idx + 1, env, defers), @>>, !.ctl = <<"ev", n.c[idx + 1], env>>]
(* statement idx of the block returned v *)
BlkReturn(m, fr, v) ==
    LET id == fr[2]
        idx == fr[3]
        env == fr[4]
        s == Node(m, Node(m, id).c[idx])
    IN
    CASE s.o = "decl" -> LET b == BindAll(m.st, env, s.s, <<v>>) IN BlkNext([m EXCEPT !.st = b[1]], id, idx, b[2], fr[5], None)
      [] s.o = "dect" ->
            IF ~Is(m, v, "tup") \/ Len(Obj(m, v).v) < Len(s.s) THEN PanicErr([m EXCEPT !.k = <<BlkFrame(id, idx, env, fr[5]), @>>])
            ELSE LET b == BindAll(m.st, env, s.s, SubSeq(Obj(m, v).v, 1, Len(s.s))) IN BlkNext([m EXCEPT !.st = b[1]], id, idx, b[2], fr[5], None)
      [] s.o = "fdecl" -> BlkNext(SetCell(m, env[2], v), id, idx, env, fr[5], None)
      [] OTHER -> BlkNext(m, id, idx, env, fr[5], v)

(* iteration: the elements still to come are looked up live; the order in which a map or set that lost elements
   continues an iteration is not specified (mv counts the changes after which positions may have moved) *)
Moves(m, o) == LET k == Kind(m, o) IN
    CASE k \in {"set", "map"} -> Obj(m, o).mv [] k = "view" -> Obj(m, Obj(m, o).t).mv [] OTHER -> 0
IterLen(m, o) == LET k == Kind(m, o) IN
    CASE k \in {"arr", "tup", "set"} -> Len(Obj(m, o).v) [] k = "map" -> Len(Obj(m, o).ks)
      [] k = "view" -> Len(Obj(m, Obj(m, o).t).ks) [] OTHER -> Len(StrOf(m, o))
CanIter(m, o) == Kind(m, o) \in {"arr", "tup", "set", "map", "view", "s", "slc"}
EachNext(m, id, env, o, pos, mv) ==        \* element pos (from 1) is next
    LET n == Node(m, id) IN
    IF Moves(m, o) # mv THEN Abandon(m, "moved")
    ELSE IF pos > IterLen(m, o) THEN Ret(m, None)
    ELSE LET k == Kind(m, o)
             m1 == IF k = "map" THEN Alloc(m, [k |-> "tup", v |-> <<Obj(m, o).ks[pos], Obj(m, o).vs[pos]>>]) ELSE m
             x == CASE k \in {"arr", "tup", "set"} -> Obj(m, o).v[pos]
                    [] k = "map" -> Last(m1)
                    [] k = "view" -> (IF Obj(m, o).w = "k" THEN Obj(m, Obj(m, o).t).ks[pos] ELSE Obj(m, Obj(m, o).t).vs[pos])
                    [] OTHER -> <<"s", SubSeq(StrOf(m, o), pos, pos)>>
             fr == <<"each", id, env, o, pos, mv>>
         IN IF n.i = 0 THEN LET b == BindAll(m1.st, env, n.s, <<x>>) IN
                [m1 EXCEPT !.st = b[1], !.k = <<fr, @>>, !.ctl = <<"ev", n.c[2], b[2]>>]
            ELSE IF ~Is(m1, x, "tup") \/ Len(Obj(m1, x).v) < Len(n.s) THEN PanicErr(m1)
            ELSE LET b == BindAll(m1.st, env, n.s, SubSeq(Obj(m1, x).v, 1, Len(n.s))) IN
                [m1 EXCEPT !.st = b[1], !.k = <<fr, @>>, !.ctl = <<"ev", n.c[2], b[2]>>]

Eval(m) ==
    LET id == m.ctl[2]
        env == m.ctl[3]
        n == Node(m, id)
        o == n.o
    IN
    CASE o = "int" -> Ret(m, IntV(n.i))
      [] o = "str" -> Ret(m, <<"s", n.n>>)
      [] o = "var" -> LET v == m.st[Cell(m, env, n.n)] IN IF v = Undef THEN Abandon(m, "undef") ELSE Ret(m, v)
      [] o \in Strict -> Advance(m, id, <<>>, env)
      [] o = "null" -> Ret(m, Nul)
      [] o = "bool" -> Ret(m, Bool(n.i = 1))
      [] o = "flt" -> Ret(m, <<"f", n.i>>)
      [] o = "sym" -> Ret(m, <<"y", n.n>>)
      [] o = "fn" -> IF n.i2 = 0 THEN Ret(m, <<"fnl", id>>) ELSE RetNew(m, [k |-> "clo", node |-> id, env |-> env])
      [] o \in {"and", "or", "coal"} -> [m EXCEPT !.k = <<<<"sc", id, env>>, @>>, !.ctl = <<"ev", n.c[1], env>>]
      [] o = "if" -> [m EXCEPT !.k = <<<<"if", id, env>>, @>>, !.ctl = <<"ev", n.c[1], env>>]
      [] o = "chain" -> [m EXCEPT !.k = <<<<"chain">>, @>>, !.ctl = <<"ev", n.c[1], env>>]
      [] o = "blk" -> BlkNext(m, id, 0, env, <<>>, None)
      [] o = "while" -> [m EXCEPT !.k = <<<<"while", id, env, "c">>, @>>, !.ctl = <<"ev", n.c[1], env>>]
      [] o = "for" ->       \* c = <<declaration or 0, condition or 0, step or 0, body>>
            IF n.c[1] = 0 THEN [m EXCEPT !.k = <<<<"for", id, env, "i">>, @>>, !.ctl = <<"rt", None>>]
            ELSE [m EXCEPT !.k = <<<<"for", id, env, "i">>, @>>, !.ctl = <<"ev", Node(m, n.c[1]).c[1], env>>]
      [] o = "each" -> [m EXCEPT !.k = <<<<"eachc", id, env>>, @>>, !.ctl = <<"ev", n.c[1], env>>]
      [] o = "ret" -> IF n.c = <<>> THEN [m EXCEPT !.ctl = <<"uw", "ret", Nul>>]
                      ELSE [m EXCEPT !.k = <<<<"ret">>, @>>, !.ctl = <<"ev", n.c[1], env>>]
      [] o = "brk" -> [m EXCEPT !.ctl = <<"uw", "brk", None>>]
      [] o = "cont" -> [m EXCEPT !.ctl = <<"uw", "cont", None>>]
      [] o = "assert" -> [m EXCEPT !.k = <<<<"assert", id, env>>, @>>, !.ctl = <<"ev", n.c[1], env>>]
      [] OTHER -> Abandon(m, "node " \o o)

(* for loop: go to the condition *)
ForCond(m, id, env) ==
    LET n == Node(m, id) IN
    IF n.c[2] = 0 THEN [m EXCEPT !.k = <<<<"for", id, env, "b">>, @>>, !.ctl = <<"ev", n.c[4], env>>]
    ELSE [m EXCEPT !.k = <<<<"for", id, env, "c">>, @>>, !.ctl = <<"ev", n.c[2], env>>]
ForStep(m, id, env) ==
    LET n == Node(m, id) IN
    IF n.c[3] = 0 THEN ForCond(m, id, env)
    ELSE [m EXCEPT !.k = <<<<"for", id, env, "s">>, @>>, !.ctl = <<"ev", n.c[3], env>>]

(* completion of the running coroutine: final result, tokens become invalid, then its callbacks run (C04-C06) *)
Complete(m, ok, v) ==
    LET id == m.cur
        m1 == Alloc(m, [k |-> "res", ok |-> ok, v |-> v])
        m2 == ResetTok([m1 EXCEPT !.cos[id].st = "done", !.cos[id].res = Last(m1), !.cos[id].k = <<>>, !.cur = 0, !.k = <<>>, !.ctl = <<"sched">>], id)
        RECURSIVE Acts(_, _)
        Acts(mm, as) == IF as = <<>> THEN mm ELSE Acts(HostCmd(mm, as[1]), Tail(as))
        RECURSIVE Cbs(_, _)
        Cbs(mm, cbs) ==
            IF cbs = <<>> THEN mm
            ELSE LET cb == cbs[1]
                     a == Acts(Emit(mm, <<"cb", cb.tag, TRUE, "OK", Render(mm, mm.cos[id].res, 0)>>), cb.acts)
                 IN Cbs(IF cb.cleanup THEN Emit(a, <<"cleanup", cb.tag>>) ELSE a, Tail(cbs))
    IN [Cbs([m2 EXCEPT !.cos[id].cb = <<>>], m.cos[id].cb) EXCEPT !.ctl = <<"sched">>]

-----------------------------------------------------------------------------
(* the host frees the machine: the callbacks of coroutines that did not complete are only cleaned up (C06), in any order *)
FreeVm(m) ==
    LET All(id) == m.cos[id].cb \o m.cos[id].old
        RECURSIVE Open(_, _)
        Open(cbs, acc) == IF cbs = <<>> THEN acc ELSE Open(Tail(cbs), IF cbs[1].cleanup THEN Append(acc, <<"cleanup", cbs[1].tag>>) ELSE acc)
        RECURSIVE Every(_, _)
        Every(id, acc) == IF id > Len(m.cos) THEN acc ELSE Every(id + 1, Open(All(id), acc))
        evs == Every(1, <<>>)
    IN IF evs = <<>> THEN m ELSE Emit(m, <<"anyorder", evs>>)

(* start the run loop on behalf of the host; the host continues when nothing is ready *)
RunLoop(m) == [m EXCEPT !.hk = m.k, !.k = <<>>, !.run = TRUE, !.ctl = <<"sched">>]

(* one top level host command; only these can start the run loop *)
HostStep(m, c) ==
    LET name == c[1] IN
    CASE name = "run" \/ (name = "api" /\ c[3] = "run_ready" /\ ~(Len(c) > 4 /\ c[5] = "novm")) -> RunLoop(Push(m, <<"hrun", c>>))
      [] name = "call" ->
            LET none == c[4][1] = "NULL"
                r == IF none THEN <<m, Nul>> ELSE Make(m, c[4], <<>>)
                f == Reg(m, c[3])
            IN IF ~IsFunc(r[1], f) THEN Emit(Ret(r[1], None), <<"call", c[3], "BAD_TYPE", <<"pending">>>>)
               ELSE LET m2 == MakeCo(r[1], f, IF r[2] = Nul THEN <<>> ELSE Obj(r[1], r[2]).v)
                        id == Len(m2.cos)
                    IN RunLoop(Push(StartCo(m2, id), <<"hcall", c, id>>))
      [] name = "export" ->
            IF c[3] \notin DOMAIN m.mods THEN Emit(Ret(m, None), <<"export", c[3], c[4], "MODULE_NOT_FOUND">>)
            ELSE LET o == InitOrder(m, c[3], {}, [todo |-> <<>>, err |-> ""]) IN
                 IF o.err = "" THEN Ret(Push(m, <<"hinit", c, o.todo>>), None)
                 ELSE \* the dependencies visited before the error are initialised all the same
                      Ret(Push(m, <<"hinit", c, Append(o.todo, "!" \o o.err)>>), None)
      [] OTHER -> LET m2 == HostCmd(m, c) IN IF m2.ctl[1] = "done" THEN m2 ELSE Ret(m2, None)
FinishExport(m, c) ==
    LET v == Export(m, c[3], c[4]) IN
    IF v = None THEN Emit(Ret(m, None), <<"export", c[3], c[4], "EXPORT_NOT_FOUND">>)
    ELSE Emit(Ret(SetReg(m, c[5], v), None), <<"export", c[3], c[4], "OK">>)

(* a value returns to frame fr (already popped) *)
Return(m0, v) ==
    LET fr == m0.k[1]
        m == [m0 EXCEPT !.k = @[2]]
        t == fr[1]
    IN
    CASE t = "seq" -> Advance(m, fr[2], Append(fr[3], v), fr[4])
      [] t = "blk" -> BlkReturn(m, fr, v)
      [] t = "fnb" -> Ret(m, IF fr[2] THEN (IF v = None THEN Nul ELSE v) ELSE Nul)
      [] t = "sc" ->
            LET n == Node(m, fr[2])
                stop == CASE n.o = "and" -> ~Truthy(v) [] n.o = "or" -> Truthy(v) [] OTHER -> v # Nul
            IN IF stop THEN Ret(m, v) ELSE [m EXCEPT !.ctl = <<"ev", n.c[2], fr[3]>>]
      [] t = "if" ->
            LET n == Node(m, fr[2]) IN
            IF Truthy(v) THEN [m EXCEPT !.ctl = <<"ev", n.c[2], fr[3]>>]
            ELSE IF Len(n.c) = 3 THEN [m EXCEPT !.ctl = <<"ev", n.c[3], fr[3]>>] ELSE Ret(m, None)
      [] t = "chain" -> Ret(m, v)
      [] t = "while" ->
            LET n == Node(m, fr[2]) IN
            IF fr[4] = "b" THEN [m EXCEPT !.k = <<<<"while", fr[2], fr[3], "c">>, @>>, !.ctl = <<"ev", n.c[1], fr[3]>>]
            ELSE IF Truthy(v) THEN [m EXCEPT !.k = <<<<"while", fr[2], fr[3], "b">>, @>>, !.ctl = <<"ev", n.c[2], fr[3]>>]
            ELSE Ret(m, None)
      [] t = "for" ->
            LET n == Node(m, fr[2]) IN
            (CASE fr[4] = "i" -> IF v = None THEN ForCond(m, fr[2], fr[3])
                                 ELSE LET b == BindAll(m.st, fr[3], Node(m, n.c[1]).s, <<v>>) IN ForCond([m EXCEPT !.st = b[1]], fr[2], b[2])
               [] fr[4] = "c" -> IF Truthy(v) THEN [m EXCEPT !.k = <<<<"for", fr[2], fr[3], "b">>, @>>, !.ctl = <<"ev", n.c[4], fr[3]>>] ELSE Ret(m, None)
               [] fr[4] = "b" -> ForStep(m, fr[2], fr[3])
               [] OTHER -> ForCond(m, fr[2], fr[3]))
      [] t = "eachc" -> IF CanIter(m, v) THEN EachNext(m, fr[2], fr[3], v, 1, Moves(m, v)) ELSE PanicErr(m)
      [] t = "each" -> EachNext(m, fr[2], fr[3], fr[4], fr[5] + 1, fr[6])
      [] t = "ret" -> [m EXCEPT !.ctl = <<"uw", "ret", v>>]
      [] t = "assert" ->
            LET n == Node(m, fr[2]) IN
            IF Truthy(v) THEN Ret(m, None)
            ELSE IF Len(n.c) = 1 THEN PanicErr(m)
            ELSE [m EXCEPT !.k = <<<<"assertm">>, @>>, !.ctl = <<"ev", n.c[2], fr[3]>>]
      [] t = "assertm" -> PanicErr(m)
      [] t = "dfr" -> IF fr[2] = <<>> THEN [m EXCEPT !.ctl = fr[3]]
                      ELSE [m EXCEPT !.k = <<<<"dfr", Tail(fr[2]), fr[3]>>, @>>, !.ctl = <<"ev", fr[2][1][1], fr[2][1][2]>>]
      [] t = "catch" -> RetNew(m, [k |-> "res", ok |-> TRUE, v |-> v])
      [] t = "rsm" -> Resumable(m, fr[2], fr[3], fr[4], v, fr[5])
      [] t = "cobase" -> Complete(m, TRUE, v)
      [] t = "cmds" ->      \* <<"cmds", index of the next command>>
            IF fr[2] > Len(Progs[m.tid].cmds) THEN [Emit(FreeVm(m), <<"end">>) EXCEPT !.ctl = <<"done">>]
            ELSE HostStep(Push(m, <<"cmds", fr[2] + 1>>), Progs[m.tid].cmds[fr[2]])
      [] t = "hrun" -> IF fr[2][1] = "api" THEN ApiEvent(Ret(m, None), fr[2], "OK", None) ELSE Emit(Ret(m, None), <<"run", "OK">>)
      [] t = "hcall" ->
            LET co == m.cos[fr[3]]
                c == fr[2]
            IN IF co.st # "done" THEN Emit(Ret(m, None), <<"call", c[3], "OK", <<"pending">>>>)
               ELSE LET ok == Obj(m, co.res).ok
                        m2 == IF Len(c) > 4 /\ ok THEN SetReg(m, c[5], Obj(m, co.res).v) ELSE m
                    IN Emit(Ret(m2, None), <<"call", c[3], "OK", Render(m, co.res, 0)>>)
      [] t = "hinit" ->     \* <<"hinit", command, modules to initialise>>
            IF fr[3] = <<>> THEN FinishExport(m, fr[2])
            ELSE LET mod == fr[3][1] IN
                 IF mod = "!MODULE_NOT_FOUND" THEN Emit(Ret(m, None), <<"export", fr[2][3], fr[2][4], "MODULE_NOT_FOUND">>)
                 ELSE IF mod = "!INTERNAL" THEN Emit(Ret(m, None), <<"export", fr[2][3], fr[2][4], "INTERNAL">>)
                 ELSE IF ~HasInit(m, mod) THEN Ret(Push([m EXCEPT !.mods[mod].init = TRUE], <<"hinit", fr[2], Tail(fr[3])>>), None)
                 ELSE LET m2 == MakeCo(m, <<"init", mod>>, <<>>)
                          id == Len(m2.cos)
                      IN RunLoop(Push(StartCo(m2, id), <<"hinit2", fr[2], fr[3], id>>))
      [] t = "hinit2" ->
            LET co == m.cos[fr[4]] IN
            IF co.st # "done" \/ ~Obj(m, co.res).ok THEN Emit(Ret(m, None), <<"export", fr[2][3], fr[2][4], "INTERNAL">>)
            ELSE Ret(Push([m EXCEPT !.mods[fr[3][1]].init = TRUE], <<"hinit", fr[2], Tail(fr[3])>>), None)
      [] t = "modi" ->      \* <<"modi", module, index>>: module level declarations in order
            LET items == ModFns(m, fr[2]).items
                env == <<"M", fr[2]>>
                RECURSIVE SetAll(_, _, _)
                SetAll(mm, names, vs) == IF names = <<>> THEN mm ELSE SetAll(SetCell(mm, Cell(mm, env, names[1]), vs[1]), Tail(names), Tail(vs))
                started == fr[3] # 0 /\ Node(m, items[fr[3]]).c # <<>>   \* declarations without initialiser were done at once
                prev == IF started THEN Node(m, items[fr[3]]) ELSE [o |-> "none"]
                bad == prev.o = "dect" /\ (~Is(m, v, "tup") \/ Len(Obj(m, v).v) < Len(prev.s))
                m2 == IF prev.o = "decl" THEN SetAll(m, prev.s, <<v>>)
                      ELSE IF prev.o = "dect" /\ ~bad THEN SetAll(m, prev.s, Obj(m, v).v) ELSE m
            IN IF bad THEN PanicErr(m)
               ELSE IF fr[3] = Len(items) THEN Ret(m2, Nul)
               ELSE LET n == Node(m, items[fr[3] + 1]) IN
                    IF n.o = "fdecl" THEN Ret(Push(m2, <<"modi", fr[2], fr[3] + 1>>), None)
                    ELSE IF n.c = <<>> THEN Ret(Push(m2, <<"modi", fr[2], fr[3] + 1>>), None)    \* stays undefined
                    ELSE EvAt(Push(m2, <<"modi", fr[2], fr[3] + 1>>), n.c[1], env)
      [] OTHER -> Abandon(m, "frame " \o t)

(* a panic reaches frame fr *)
Unwind(m0, ex) ==
    LET fr == m0.k[1]
        m == [m0 EXCEPT !.k = @[2]]
        t == fr[1]
    IN
    CASE t = "blk" /\ fr[5] # <<>> ->
            [m EXCEPT !.k = <<<<"dfr", Tail(fr[5]), <<"pn", ex>>>>, @>>, !.ctl = <<"ev", fr[5][1][1], fr[5][1][2]>>]
      [] t = "dfr" ->     \* C08: the panic that is already in flight stays, the others are attached to it
            LET after == IF fr[3][1] = "pn" THEN fr[3] ELSE <<"pn", ex>> IN
            IF fr[2] = <<>> THEN [m EXCEPT !.ctl = after]
            ELSE [m EXCEPT !.k = <<<<"dfr", Tail(fr[2]), after>>, @>>, !.ctl = <<"ev", fr[2][1][1], fr[2][1][2]>>]
      [] t = "catch" -> RetNew(m, [k |-> "res", ok |-> FALSE, v |-> ex])
      [] t = "cobase" -> Complete(m, FALSE, ex)
      [] t \in {"cmds", "hcall", "hinit", "hrun"} -> Abandon(m, "panic in host")
      [] OTHER -> m

(* control leaves scopes because of return, break or continue *)
Leave(m0, kind, v) ==
    LET fr == m0.k[1]
        m == [m0 EXCEPT !.k = @[2]]
        t == fr[1]
    IN
    CASE t = "blk" /\ fr[5] # <<>> ->
            [m EXCEPT !.k = <<<<"dfr", Tail(fr[5]), <<"uw", kind, v>>>>, @>>, !.ctl = <<"ev", fr[5][1][1], fr[5][1][2]>>]
      [] t = "fnb" -> Ret(m, v)
      [] t \in {"while", "for", "each"} /\ kind = "brk" -> Ret(m, None)
      [] t = "while" /\ kind = "cont" -> Return(m0, None)
      [] t = "for" /\ kind = "cont" -> ForStep(m, fr[2], fr[3])
      [] t = "each" /\ kind = "cont" -> Return(m0, None)
      [] OTHER -> m

(* the run loop picks the first ready coroutine *)
Schedule(m) ==
    IF m.rq = <<>> THEN [m EXCEPT !.run = FALSE, !.k = m.hk, !.hk = <<>>, !.ctl = <<"rt", None>>]
    ELSE LET id == Head(m.rq)
             co == m.cos[id]
             m2 == [m EXCEPT !.rq = Tail(@), !.cur = id, !.cos[id].st = "running"]
         IN IF co.st = "started" THEN
                IF co.f[1] = "init" THEN [m2 EXCEPT !.k = <<<<"modi", co.f[2], 0>>, <<<<"cobase">>, <<>> >> >>, !.ctl = <<"rt", None>>]
                ELSE [m2 EXCEPT !.k = <<<<"cobase">>, <<>> >>, !.ctl = <<"call", co.f, co.args>>]
            ELSE [m2 EXCEPT !.k = co.k, !.ctl = co.rv]

Step(m) ==
    CASE m.ctl[1] = "ev" -> Eval(m)
      [] m.ctl[1] = "rt" -> Return(m, m.ctl[2])
      [] m.ctl[1] = "call" -> Call(m, m.ctl[2], m.ctl[3])
      [] m.ctl[1] = "pn" -> Unwind(m, m.ctl[2])
      [] m.ctl[1] = "uw" -> Leave(m, m.ctl[2], m.ctl[3])
      [] m.ctl[1] = "rsm" -> Resumable(m, m.ctl[2], m.ctl[3], m.ctl[4], Nul, m.ctl[5])
      [] m.ctl[1] = "sched" -> Schedule(m)
      [] OTHER -> m

InitState(tid) ==
    [tid |-> tid, ctl |-> <<"rt", None>>, k |-> <<<<"cmds", 1>>, <<>> >>, st |-> <<>>, hp |-> <<>>, cos |-> <<>>, rq |-> <<>>,
     nm |-> "", cur |-> 0, run |-> FALSE, hk |-> <<>>, regs |-> EmptyFn, toks |-> EmptyFn, mods |-> EmptyFn, nats |-> <<>>, out |-> <<>>, ab |-> ""]

-----------------------------------------------------------------------------
(* Invariants of the machine (checked in every state TLC visits). *)
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
QueueOK(m) == /\ NoDup(m.rq)
              /\ \A i \in 1..Len(m.rq) : m.cos[m.rq[i]].st \in {"started", "ready"}
              /\ \A id \in 1..Len(m.cos) : m.cos[id].st \in {"started", "ready"} => \E i \in 1..Len(m.rq) : m.rq[i] = id
RunningOK(m) == \A id \in 1..Len(m.cos) : (m.cos[id].st = "running") <=> (m.cur = id)
DoneOK(m) == \A id \in 1..Len(m.cos) : (m.cos[id].st = "done") <=> (m.cos[id].res # Nul)
TokensOK(m) == \A id \in 1..Len(m.cos) : m.cos[id].st = "done" => m.cos[id].tok = Nul
MapsOK(m) == \A a \in 1..Len(m.hp) : m.hp[a].k = "map" => Len(m.hp[a].ks) = Len(m.hp[a].vs)
MachineOK(m) == QueueOK(m) /\ RunningOK(m) /\ DoneOK(m) /\ TokensOK(m) /\ MapsOK(m)
=============================================================================
