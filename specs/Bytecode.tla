------------------------------ MODULE Bytecode ------------------------------
(* C19: well-formed bytecode modules.  A module consists of members (constants, symbols, imports, variables, functions,      *)
(* record schemas; numbered from 0), functions (code and exception handlers), schemas, exports and an optional initializer.  *)
(* Code is a sequence of bytes: an operation code and big endian operands.  A case is a module, where it comes from (the     *)
(* compiler, or a modification of a compiled module), and what loading it returned.                                           *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

(* Operands: r register that is read, w written, x both, p parameter, m member, y symbol, s schema, t closure function,      *)
(* o jump target, c 32 bit number, k 64 bit number.                                                                            *)
Bin3 == <<"r", "r", "w">>
Un2 == <<"r", "w">>
Ops == <<
    <<"LoadNull", <<"w">>>>, <<"LoadFalse", <<"w">>>>, <<"LoadTrue", <<"w">>>>, <<"LoadInt", <<"k", "w">>>>, <<"LoadFloat", <<"k", "w">>>>,
    <<"LoadParam", <<"p", "w">>>>, <<"StoreParam", <<"r", "p">>>>, <<"LoadModule", <<"m", "w">>>>, <<"StoreModule", <<"r", "m">>>>,
    <<"LoadMember", <<"r", "y", "w">>>>, <<"StoreMember", <<"r", "r", "y">>>>, <<"LoadTupleMember", <<"r", "c", "w">>>>, <<"StoreTupleMember", <<"r", "r", "c">>>>,
    <<"LoadIndex", Bin3>>, <<"StoreIndex", <<"r", "r", "r">>>>, <<"LoadClosure", <<"w">>>>, <<"LoadEnv", <<"r", "c", "c", "w">>>>, <<"StoreEnv", <<"r", "r", "c", "c">>>>,
    <<"Add", Bin3>>, <<"Sub", Bin3>>, <<"Mul", Bin3>>, <<"Div", Bin3>>, <<"Mod", Bin3>>, <<"Pow", Bin3>>, <<"UAdd", Un2>>, <<"UNeg", Un2>>,
    <<"LSh", Bin3>>, <<"RSh", Bin3>>, <<"BAnd", Bin3>>, <<"BOr", Bin3>>, <<"BXor", Bin3>>, <<"BNot", Un2>>,
    <<"Gt", Bin3>>, <<"Gte", Bin3>>, <<"Lt", Bin3>>, <<"Lte", Bin3>>, <<"Eq", Bin3>>, <<"NEq", Bin3>>, <<"LNot", Un2>>,
    <<"Array", <<"c", "w">>>>, <<"Tuple", <<"c", "w">>>>, <<"Set", <<"c", "w">>>>, <<"Map", <<"c", "w">>>>, <<"Env", <<"r", "c", "w">>>>,
    <<"Closure", <<"t", "r", "w">>>>, <<"Record", <<"s", "w">>>>, <<"Iterator", Un2>>, <<"IteratorNext", <<"r", "w", "w">>>>,
    <<"Formatter", <<"w">>>>, <<"AppendFormat", <<"r", "r">>>>, <<"FormatResult", Un2>>, <<"Copy", Un2>>, <<"Swap", <<"x", "x">>>>,
    <<"Push", <<"r">>>>, <<"Pop", <<>>>>, <<"PopTo", <<"w">>>>, <<"Jmp", <<"o">>>>, <<"JmpTrue", <<"r", "o">>>>, <<"JmpFalse", <<"r", "o">>>>,
    <<"JmpNull", <<"r", "o">>>>, <<"JmpNotNull", <<"r", "o">>>>, <<"Call", <<"r", "c">>>>, <<"LoadMethod", <<"r", "y", "w", "w">>>>,
    <<"CallMethod", <<"r", "c">>>>, <<"Return", <<"r">>>>, <<"Rethrow", <<>>>>, <<"AssertFail", <<"r", "r">>>> >>
Width(k) == IF k = "k" THEN 8 ELSE 4
Big == 2147483647                       \* any larger number
MaxLocals == 16384
MaxArgs == 65536
Size(op) == FoldLeft(LAMBDA a, k : a + Width(k), 1, Ops[op][2])
Sizes == [op \in 1..Len(Ops) |-> Size(op)]

(* operands of the operation at byte b (counted from 1) *)
U32(code, b) == IF code[b] > 127 THEN Big ELSE ((code[b] * 256 + code[b + 1]) * 256 + code[b + 2]) * 256 + code[b + 3]
RECURSIVE Operands(_, _, _)
Operands(code, kinds, b) == IF kinds = <<>> THEN <<>>
                            ELSE <<IF kinds[1] = "k" THEN 0 ELSE U32(code, b)>> \o Operands(code, Tail(kinds), b + Width(kinds[1]))
(* -> [ok, ins]; an instruction is [at, op, a]; `at` counts from 0 *)
RECURSIVE Decode(_, _, _)
Decode(code, b, acc) ==
    IF b > Len(code) THEN [ok |-> TRUE, ins |-> acc]
    ELSE LET op == code[b] IN
         IF op < 1 \/ op > Len(Ops) THEN [ok |-> FALSE, ins |-> <<>>]
         ELSE IF b + Sizes[op] - 1 > Len(code) THEN [ok |-> FALSE, ins |-> <<>>]
         ELSE Decode(code, b + Sizes[op], Append(acc, [at |-> b - 1, op |-> op, a |-> Operands(code, Ops[op][2], b + 1)]))
Name(x) == Ops[x.op][1]
Kinds(x) == Ops[x.op][2]

-----------------------------------------------------------------------------
(* Rules: the first one that is violated, or "".  Member ids count from 0. *)
Type(m, r) == m.members[r + 1][1]
Ref(m, r) == r >= 0 /\ r < Len(m.members)
RefTo(m, r, type) == Ref(m, r) /\ Type(m, r) = type
Earlier(m, r, k, type) == r >= 0 /\ r < k - 1 /\ Type(m, r) = type          \* member k (counted from 1) refers to an earlier one
FirstOf(S) == IF S = {} THEN "" ELSE CHOOSE s \in S : TRUE
FunctionOf(m, r) == m.functions[m.members[r + 1][2] + 1]

MemberRule(m, k) ==
    LET x == m.members[k] IN
    CASE x[1] = "String" -> IF x[2] = "" THEN "string" ELSE ""
      [] x[1] = "Symbol" -> IF Earlier(m, x[2], k, "String") THEN "" ELSE "symbol name"
      [] x[1] = "Import" -> IF Earlier(m, x[2], k, "String") THEN "" ELSE "import name"
      [] x[1] = "Function" -> IF x[2] < 0 \/ x[2] >= Len(m.functions) THEN "function"
                              ELSE LET f == m.functions[x[2] + 1] IN IF f.name = -1 \/ Earlier(m, f.name, k, "String") THEN "" ELSE "function name"
      [] x[1] = "RecordSchema" -> IF x[2] < 0 \/ x[2] >= Len(m.schemas) THEN "schema"
                                  ELSE IF \A q \in 1..Len(m.schemas[x[2] + 1]) : Earlier(m, m.schemas[x[2] + 1][q], k, "Symbol") THEN "" ELSE "schema key"
      [] OTHER -> ""

OperandRule(m, f, starts, kind, v) ==
    CASE kind \in {"r", "w", "x"} -> IF v < f.locals THEN "" ELSE "register"
      [] kind = "p" -> IF v < f.params THEN "" ELSE "parameter"
      [] kind = "m" -> IF Ref(m, v) THEN "" ELSE "member"
      [] kind = "y" -> IF RefTo(m, v, "Symbol") THEN "" ELSE "member symbol"
      [] kind = "s" -> IF RefTo(m, v, "RecordSchema") THEN "" ELSE "member schema"
      [] kind = "t" -> IF RefTo(m, v, "Function") /\ FunctionOf(m, v).closure THEN "" ELSE "member closure"
      [] kind = "o" -> IF v \in starts THEN "" ELSE "jump target"
      [] OTHER -> ""
InstructionRule(m, f, starts, x) ==
    LET ks == Kinds(x)
        bad == {OperandRule(m, f, starts, ks[q], x.a[q]) : q \in 1..Len(ks)} \ {""}
    IN IF bad # {} THEN FirstOf(bad)
       ELSE CASE Name(x) \in {"Array", "Tuple", "Set", "Map"} -> IF x.a[1] > MaxArgs \/ (Name(x) = "Map" /\ x.a[1] % 2 # 0) THEN "container size" ELSE ""
              [] Name(x) = "LoadClosure" -> IF f.closure THEN "" ELSE "no closure"
              [] OTHER -> ""
HandlerRule(f, starts) ==
    IF \E h \in 1..Len(f.handlers) : LET x == f.handlers[h] IN
            \/ x[1] \notin starts \/ x[3] \notin starts \/ (x[2] \notin starts /\ x[2] # Len(f.code)) \/ x[2] <= x[1]
            \/ (h > 1 /\ x[1] < f.handlers[h - 1][2])
    THEN "handler" ELSE ""
FunctionRule(m, f) ==
    IF f.locals > MaxLocals THEN "locals"
    ELSE LET d == Decode(f.code, 1, <<>>) IN
         IF ~ d.ok THEN "instruction"
         ELSE IF d.ins = <<>> THEN "empty"
         ELSE LET starts == {d.ins[q].at : q \in 1..Len(d.ins)}
                  bad == {InstructionRule(m, f, starts, d.ins[q]) : q \in 1..Len(d.ins)} \ {""}
              IN IF bad # {} THEN FirstOf(bad)
                 ELSE IF Name(d.ins[Len(d.ins)]) \notin {"Return", "Rethrow", "Jmp", "AssertFail"} THEN "runs past the end"
                 ELSE HandlerRule(f, starts)
Normal(m, r) == ~ FunctionOf(m, r).closure
ExportRule(m, e) ==
    IF ~ RefTo(m, e[1], "Symbol") \/ ~ Ref(m, e[2]) THEN "export"
    ELSE IF Type(m, e[2]) \in {"Import", "RecordSchema"} \/ (Type(m, e[2]) = "Function" /\ ~ Normal(m, e[2])) THEN "export of an internal object" ELSE ""
Malformed(m) ==
    LET members == {MemberRule(m, k) : k \in 1..Len(m.members)} \ {""} IN
    IF m.name = "" THEN "name"
    ELSE IF members # {} THEN FirstOf(members)
    ELSE LET functions == {FunctionRule(m, FunctionOf(m, k - 1)) : k \in {q \in 1..Len(m.members) : m.members[q][1] = "Function"}} \ {""}
             exports == {ExportRule(m, m.exports[q]) : q \in 1..Len(m.exports)} \ {""}
         IN IF functions # {} THEN FirstOf(functions)
            ELSE IF m.init # -1 /\ ~ (RefTo(m, m.init, "Function") /\ Normal(m, m.init)) THEN "initializer"
            ELSE FirstOf(exports)

-----------------------------------------------------------------------------
(* Compiled code, on every path: a register is read only after it was written, and calls and containers take no more from     *)
(* the stack than was pushed for them.  State before an instruction: [seen, depth (values pushed), set (registers written)];  *)
(* paths that meet must have pushed the same number of values.  An instruction that fails leads to the handler covering it.   *)
Reads(x) == {x.a[q] : q \in {p \in 1..Len(Kinds(x)) : Kinds(x)[p] \in {"r", "x"}}}
Writes(x) == {x.a[q] : q \in {p \in 1..Len(Kinds(x)) : Kinds(x)[p] \in {"w", "x"}}}
Takes(x) == CASE Name(x) \in {"Array", "Tuple", "Set", "Map"} -> x.a[1]
              [] Name(x) = "Call" -> x.a[2]
              [] Name(x) = "CallMethod" -> x.a[2] + 1
              [] Name(x) \in {"Pop", "PopTo"} -> 1
              [] OTHER -> 0
Gives(x) == IF Name(x) \in {"Push", "Call", "CallMethod"} THEN 1 ELSE 0
Unseen == [seen |-> FALSE, depth |-> 0, set |-> {}]
Meet(s, depth, set) == IF ~ s.seen THEN [seen |-> TRUE, depth |-> depth, set |-> set] ELSE [s EXCEPT !.set = @ \intersect set, !.depth = IF @ = depth THEN @ ELSE -1]
Handlers(f, x) == {f.handlers[h][3] : h \in {q \in 1..Len(f.handlers) : f.handlers[q][1] <= x.at /\ x.at < f.handlers[q][2]}}
Flow(f, ins) ==
    LET n == Len(ins)
        starts == {ins[q].at : q \in 1..n}
        index == [b \in starts |-> CHOOSE q \in 1..n : ins[q].at = b]
        next(k) == CASE Name(ins[k]) \in {"Return", "Rethrow", "AssertFail"} -> {}
                     [] Name(ins[k]) = "Jmp" -> {index[ins[k].a[1]]}
                     [] Name(ins[k]) \in {"JmpTrue", "JmpFalse", "JmpNull", "JmpNotNull"} -> {k + 1, index[ins[k].a[2]]}
                     [] OTHER -> {k + 1}
        nexts == [k \in 1..n |-> next(k)]
        caught == [k \in 1..n |-> {index[b] : b \in Handlers(f, ins[k])}]
        One(st, k) ==
            IF ~ st[k].seen THEN st
            ELSE LET s == st[k]
                     depth == s.depth - Takes(ins[k]) + Gives(ins[k])
                     set == s.set \union Writes(ins[k])
                     st2 == FoldLeft(LAMBDA a, q : [a EXCEPT ![q] = Meet(@, depth, set)], st, SetToSeq(nexts[k]))
                 IN FoldLeft(LAMBDA a, q : [a EXCEPT ![q] = Meet(@, 0, s.set)], st2, SetToSeq(caught[k]))
        RECURSIVE Fix(_)
        Fix(st) == LET t == FoldLeft(One, st, [k \in 1..n |-> k]) IN IF t = st THEN st ELSE Fix(t)
    IN Fix([k \in 1..n |-> IF k = 1 THEN Meet(Unseen, 0, {}) ELSE Unseen])
FlowRule(f) ==
    LET ins == Decode(f.code, 1, <<>>).ins
        st == Flow(f, ins)
        At(k) == " at " \o ToString(ins[k].at)
        bad == {k \in 1..Len(ins) : st[k].seen /\ (~ (Reads(ins[k]) \subseteq st[k].set) \/ st[k].depth < Takes(ins[k]) \/ st[k].depth < 0)}
    IN IF bad = {} THEN ""
       ELSE LET k == CHOOSE q \in bad : TRUE IN
            IF ~ (Reads(ins[k]) \subseteq st[k].set) THEN Name(ins[k]) \o " reads a register that is not always written" \o At(k) ELSE "unbalanced stack" \o At(k)
FlowRules(m) == FirstOf({FlowRule(m.functions[k]) : k \in 1..Len(m.functions)} \ {""})

Verdict(c) ==
    LET why == Malformed(c.m) IN
    CASE c.rc \in {"crash", "ASSERT"} -> c.rc \o " while loading (" \o why \o ")"
      [] c.compiled -> IF c.rc # "OK" THEN "compiled module refused"
                       ELSE IF c.after # "MODULE_EXISTS" THEN "module not registered"
                       ELSE IF why # "" THEN "compiled module malformed: " \o why
                       ELSE FlowRules(c.m)
      [] OTHER -> IF why # "" /\ c.rc = "OK" THEN "malformed module accepted: " \o why
                  ELSE IF c.rc = "OK" /\ c.after # "MODULE_EXISTS" THEN "module not registered"
                  ELSE IF c.rc # "OK" /\ c.after # "OK" THEN "refused module stayed registered"
                  ELSE ""
(* not a violation: the machine may refuse more *)
Stricter(c) == ~ c.compiled /\ c.rc # "OK" /\ ~ c.rc \in {"crash", "ASSERT"} /\ Malformed(c.m) = ""

Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == LET v == Verdict(Cases[i]) IN
          /\ (v = "" \/ PrintT("BAD|" \o Cases[i].id \o "|" \o v))
          /\ (~ ("NOTES" \in DOMAIN IOEnv /\ Stricter(Cases[i])) \/ PrintT("BAD|" \o Cases[i].id \o "|stricter"))
=============================================================================
