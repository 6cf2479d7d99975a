-------------------------------- MODULE Text --------------------------------
(* C13: strings, slices, builders, literals and interpolation.  A text is a sequence of bytes.  A case is a list of operations;   *)
(* operations define values (numbered in order), change builders, or observe something.  Values are records                      *)
(*   [k |-> "s" string | "l" slice | "b" builder | "v" any other value, t |-> the characters (of other values: as interpolated)] *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

(* ---- UTF-8 and the escapes of literals ---- *)
ValidChar(c) == c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Hex(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Backslash == 92
Bad == [bad |-> TRUE, t |-> <<>>]
(* \u{digits}: the value of the digits from position k on and the position after the brace; end 0 if malformed *)
RECURSIVE Uni(_, _, _, _)
Uni(s, k, n, any) == IF k > Len(s) THEN [v |-> 0, end |-> 0]
                     ELSE IF s[k] = 125 THEN [v |-> n, end |-> IF any /\ ValidChar(n) THEN k + 1 ELSE 0]
                     ELSE IF Hex(s[k]) < 0 THEN [v |-> 0, end |-> 0]
                     ELSE Uni(s, k + 1, IF n > 1114111 THEN n ELSE n * 16 + Hex(s[k]), TRUE)
RECURSIVE Decode(_, _, _)
Decode(s, k, t) ==
    IF k > Len(s) THEN [bad |-> FALSE, t |-> t]
    ELSE IF s[k] # Backslash THEN Decode(s, k + 1, t \o Utf8(s[k]))
    ELSE IF k = Len(s) THEN Bad
    ELSE LET e == s[k + 1] IN
         CASE e = 110 -> Decode(s, k + 2, t \o <<10>>)                                    \* n
           [] e = 114 -> Decode(s, k + 2, t \o <<13>>)                                    \* r
           [] e = 116 -> Decode(s, k + 2, t \o <<9>>)                                     \* t
           [] e \in {34, 39, 92, 36} -> Decode(s, k + 2, t \o <<e>>)                      \* quotes, backslash, dollar
           [] e = 120 ->                                                                  \* x and two digits
                IF k + 3 > Len(s) THEN Bad
                ELSE IF Hex(s[k + 2]) < 0 \/ Hex(s[k + 3]) < 0 THEN Bad
                ELSE Decode(s, k + 4, t \o Utf8(16 * Hex(s[k + 2]) + Hex(s[k + 3])))
           [] e = 117 ->                                                                  \* u{digits}
                IF k + 2 > Len(s) THEN Bad ELSE IF s[k + 2] # 123 THEN Bad
                ELSE LET u == Uni(s, k + 3, 0, FALSE) IN IF u.end = 0 THEN Bad ELSE Decode(s, u.end, t \o Utf8(u.v))
           [] OTHER -> Bad
Lit(s) == Decode(s, 1, <<>>)

(* ---- texts of numbers ---- *)
RECURSIVE DivTen(_, _, _, _)
DivTen(m, k, rest, q) == IF k = 0 THEN [q |-> q, r |-> rest]                              \* m: base 256, least significant digit first
                         ELSE LET x == rest * 256 + m[k] IN DivTen(m, k - 1, x % 10, <<x \div 10>> \o q)
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))
RECURSIVE Digits(_, _)
Digits(m, t) == IF m = <<>> THEN t ELSE LET d == DivTen(m, Len(m), 0, <<>>) IN Digits(Trim(d.q), <<48 + d.r>> \o t)
Dec(m) == IF Trim(m) = <<>> THEN <<48>> ELSE Digits(Trim(m), <<>>)
RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Nat10(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Frac(_)
Frac(f) == IF f = 0 THEN <<>> ELSE <<48 + ((f * 10) \div 16)>> \o Frac((f * 10) % 16)         \* f sixteenths
Flt(u) == LET a == IF u < 0 THEN -u ELSE u IN
          (IF u < 0 THEN <<45>> ELSE <<>>) \o Nat10(a \div 16) \o (IF a % 16 = 0 THEN <<>> ELSE <<46>> \o Frac(a % 16))

(* ---- operations ---- *)
Least(a, b) == IF a < b THEN a ELSE b
Pos(a) == IF a < 0 THEN 0 ELSE a
Part(t, off, n) == LET o == Least(Pos(off), Len(t)) IN SubSeq(t, o + 1, o + Least(Pos(n), Len(t) - o))
Cat(ts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ts)
Found(t, n) == \E o \in 0..(Len(t) - Len(n)) : SubSeq(t, o + 1, o + Len(n)) = n

Value(vs, o) ==
    CASE o[1] = "src" -> [k |-> "s", t |-> Lit(o[2]).t]
      [] o[1] = "host" -> [k |-> "s", t |-> o[2]]
      [] o[1] = "int" -> [k |-> "v", t |-> (IF o[2] = 1 THEN <<45>> ELSE <<>>) \o Dec(o[3])]
      [] o[1] = "flt" -> [k |-> "v", t |-> Flt(o[2])]
      [] o[1] = "null" -> [k |-> "v", t |-> <<110, 117, 108, 108>>]
      [] o[1] = "true" -> [k |-> "v", t |-> <<116, 114, 117, 101>>]
      [] o[1] = "false" -> [k |-> "v", t |-> <<102, 97, 108, 115, 101>>]
      [] o[1] = "sym" -> [k |-> "v", t |-> <<35>> \o o[2]]
      [] o[1] = "exc" -> [k |-> "v", t |-> <<69, 120, 99, 101, 112, 116, 105, 111, 110, 58, 32>> \o vs[o[2]].t]
      [] o[1] = "interp" -> [k |-> "s", t |-> Cat([j \in 1..Len(o[2]) |-> IF o[2][j][1] = "s" THEN Lit(o[2][j][2]).t ELSE vs[o[2][j][2]].t])]
      [] o[1] = "slice" -> [k |-> "l", t |-> Part(vs[o[2]].t, o[3], o[4])]
      [] o[1] = "first" -> [k |-> "l", t |-> Part(vs[o[2]].t, 0, o[3])]
      [] o[1] = "last" -> LET n == Least(Pos(o[3]), Len(vs[o[2]].t)) IN [k |-> "l", t |-> Part(vs[o[2]].t, Len(vs[o[2]].t) - n, n)]
      [] o[1] = "tostr" -> [k |-> "s", t |-> vs[o[2]].t]
      [] o[1] = "new" -> [k |-> "b", t |-> <<>>]

Defines == {"src", "host", "int", "flt", "null", "true", "false", "sym", "exc", "interp", "slice", "first", "last", "tostr", "new"}
Bool(p) == IF p THEN <<1>> ELSE <<0>>
Same(a, x, b, y) == IF a.k \in {"s", "l"} /\ b.k \in {"s", "l"} THEN a.t = b.t ELSE x = y     \* builders: identity
Observe(vs, o) ==
    CASE o[1] = "size" -> <<Len(vs[o[2]].t)>>
      [] o[1] = "has" -> Bool(Found(vs[o[2]].t, vs[o[3]].t))
      [] o[1] = "eq" -> Bool(Same(vs[o[2]], o[2], vs[o[3]], o[3]))
      [] o[1] = "chars" -> vs[o[2]].t
      [] o[1] = "text" -> vs[o[2]].t
Step(s, o) ==
    IF s.bad # 0 THEN s
    ELSE IF o[1] \in Defines THEN [s EXCEPT !.vs = Append(@, Value(s.vs, o))]
    ELSE CASE o[1] = "app" -> [s EXCEPT !.vs[o[2]].t = @ \o Cat([j \in 1..Len(o[3]) |-> s.vs[o[3][j]].t])]
           [] o[1] = "rep" -> [s EXCEPT !.vs[o[2]].t = @ \o Cat([j \in 1..o[4] |-> s.vs[o[3]].t])]
           [] o[1] = "byte" -> [s EXCEPT !.vs[o[2]].t = Append(@, o[3])]
           [] o[1] = "clear" -> [s EXCEPT !.vs[o[2]].t = <<>>]
           [] OTHER -> [s EXCEPT !.n = @ + 1, !.bad = IF s.n + 1 > Len(s.r) THEN s.n + 1 ELSE IF s.r[s.n + 1] = Observe(s.vs, o) THEN 0 ELSE s.n + 1]

Sources(c) == UNION {IF o[1] = "src" THEN {o[2]} ELSE IF o[1] = "interp" THEN {o[2][j][2] : j \in {x \in 1..Len(o[2]) : o[2][x][1] = "s"}} ELSE {} : o \in {c.ops[n] : n \in 1..Len(c.ops)}}
Malformed(c) == \E s \in Sources(c) : Lit(s).bad

(* "" or what is wrong *)
Failed(c) ==
    IF Malformed(c) THEN (IF c.rejected THEN "" ELSE "a malformed literal was accepted")
    ELSE IF c.rejected THEN "a valid program was rejected"
    ELSE LET s == FoldLeft(Step, [vs |-> <<>>, n |-> 0, bad |-> 0, r |-> c.r], c.ops)
         IN IF s.bad # 0 THEN "observation " \o ToString(s.bad) ELSE ""

Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == LET c == Cases[i]
              f == Failed(c)
          IN f = "" \/ PrintT("BAD|" \o c.id \o "|" \o f)
=============================================================================
