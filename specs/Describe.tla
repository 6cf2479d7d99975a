------------------------------ MODULE Describe ------------------------------
(* C24: std.debug_repr, std.type_of and the exported types.  A case is a list of operations on numbered values: "new" creates the  *)
(* next value, others change containers or observe; the observations (texts and booleans) are compared with the recorded ones.      *)
(* A value is a record: k the kind, v the content: scalars hold their text or bytes, containers hold numbers of values.             *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

(* ---- texts ---- *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
At(s, n) == SubSeq(s, n, n)
HexDigit(n) == At("0123456789ABCDEF", n + 1)
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN HexDigit(n) ELSE HexText(n \div 16) \o HexDigit(n % 16)
Byte(b) == "\\x" \o HexDigit(b \div 16) \o HexDigit(b % 16)
Char(c) == CASE c = 10 -> "\\n" [] c = 13 -> "\\r" [] c = 9 -> "\\t" [] c = 36 -> "\\$" [] c = 39 -> "\\'" [] c = 34 -> "\\\"" [] c = 92 -> "\\\\"
             [] c >= 32 /\ c <= 126 /\ c \notin {36, 39, 34, 92} -> At(Printable, c - 31)
             [] (c < 32 /\ c \notin {9, 10, 13}) \/ (c > 126 /\ c <= 255) -> Byte(c)
             [] OTHER -> "\\u{" \o HexText(c) \o "}"

(* well-formed UTF-8: the length of the sequence starting at position p and its character, length 0 if malformed *)
Cont(s, p) == p <= Len(s) /\ s[p] >= 128 /\ s[p] <= 191
Sequence(s, p) ==
    LET a == s[p]  two == Cont(s, p + 1)  three == two /\ Cont(s, p + 2)  four == three /\ Cont(s, p + 3)  bad == [n |-> 0, c |-> 0] IN
    IF a < 128 THEN [n |-> 1, c |-> a]
    ELSE IF a >= 194 /\ a <= 223 THEN IF two THEN [n |-> 2, c |-> (a - 192) * 64 + (s[p + 1] - 128)] ELSE bad
    ELSE IF a >= 224 /\ a <= 239 THEN
        IF ~three \/ (a = 224 /\ s[p + 1] < 160) \/ (a = 237 /\ s[p + 1] > 159) THEN bad
        ELSE [n |-> 3, c |-> (a - 224) * 4096 + (s[p + 1] - 128) * 64 + (s[p + 2] - 128)]
    ELSE IF a >= 240 /\ a <= 244 THEN
        IF ~four \/ (a = 240 /\ s[p + 1] < 144) \/ (a = 244 /\ s[p + 1] > 143) THEN bad
        ELSE [n |-> 4, c |-> (a - 240) * 262144 + (s[p + 1] - 128) * 4096 + (s[p + 2] - 128) * 64 + (s[p + 3] - 128)]
    ELSE bad
RECURSIVE Quote(_, _, _)
Quote(s, p, t) == IF p > Len(s) THEN "\"" \o t \o "\""
                  ELSE LET q == Sequence(s, p) IN
                       IF q.n = 0 THEN Quote(s, p + 1, t \o Byte(s[p])) ELSE Quote(s, p + q.n, t \o Char(q.c))
Quoted(s) == Quote(s, 1, "")
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "    " \o Spaces(n - 1)
RECURSIVE Glue(_, _)
Glue(ts, sep) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Glue(Tail(ts), sep)

(* ---- descriptions ---- *)
(* elements between open and close: on one line, or every element on a line of its own, one level deeper than the value itself.   *)
(* A tuple of one element ends with a comma, a record without fields is (:)                                                        *)
List(open, close, items, last, pretty, depth) ==
    IF items = <<>> THEN open \o close
    ELSE IF ~pretty THEN open \o Glue(items, ", ") \o last \o close
    ELSE open \o "\n" \o Spaces(depth + 1) \o Glue(items, ",\n" \o Spaces(depth + 1)) \o last \o "\n" \o Spaces(depth) \o close
TypeName(x) == CASE x.k = "null" -> "Null" [] x.k = "bool" -> "Boolean" [] x.k = "int" -> "Integer" [] x.k = "float" -> "Float" [] x.k = "str" -> "String"
                 [] x.k = "sym" -> "Symbol" [] x.k = "slice" -> "StringSlice" [] x.k = "tuple" -> "Tuple" [] x.k = "rec" -> "Record" [] x.k = "arr" -> "Array"
                 [] x.k = "map" -> "Map" [] x.k = "set" -> "Set" [] x.k \in {"ok", "fail"} -> "Result" [] x.k = "type" -> "Type" [] x.k = "schema" -> "RecordSchema"
                 [] x.k = "exc" -> "Exception" [] x.k = "coro" -> "Coroutine" [] x.k = "opaque" -> x.v
(* The order in which a record lists its fields is not promised, only that it is the same for all records: by name, or as written. *)
InOrder(fs, name(_), names) == IF names = <<>> THEN fs
                               ELSE LET Rank(n) == CHOOSE j \in DOMAIN names : names[j] = n IN SortSeq(fs, LAMBDA a, b : Rank(name(a)) < Rank(name(b)))
(* inside: the values being described around this one; names: the order of names of fields, <<>> for the order written *)
RECURSIVE Text(_, _, _, _, _)
Text(ns, r, inside, pretty, names) ==
    LET x == ns[r]  d == Cardinality(inside)  sub == inside \cup {r}
        T(c) == Text(ns, c, sub, pretty, names)
        Fields(name, fs) == List(name \o "{", "}", fs, "", pretty, d)
    IN
    IF r \in inside THEN "{...}"
    ELSE CASE x.k \in {"null", "bool", "int"} -> x.v
           [] x.k = "float" -> x.v
           [] x.k = "str" -> Quoted(x.v)
           [] x.k = "sym" -> "#" \o x.v
           [] x.k = "slice" -> Fields("StringSlice", <<"value: " \o Quoted(x.v)>>)
           [] x.k = "tuple" -> List("(", ")", [j \in DOMAIN x.v |-> T(x.v[j])], IF Len(x.v) = 1 THEN "," ELSE "", pretty, d)
           [] x.k = "rec" -> IF x.v = <<>> THEN "(:)" ELSE LET fs == InOrder(x.v, LAMBDA f : f[1], names) IN List("(", ")", [j \in DOMAIN fs |-> fs[j][1] \o ": " \o T(fs[j][2])], "", pretty, d)
           [] x.k = "schema" -> List("RecordSchema{", "}", InOrder(x.v, LAMBDA f : f, names), "", pretty, d)
           [] x.k = "arr" -> List("[", "]", [j \in DOMAIN x.v |-> T(x.v[j])], "", pretty, d)
           [] x.k = "set" -> List("set{", "}", [j \in DOMAIN x.v |-> T(x.v[j])], "", pretty, d)
           [] x.k = "map" -> List("map{", "}", [j \in DOMAIN x.v |-> T(x.v[j][1]) \o ": " \o T(x.v[j][2])], "", pretty, d)
           [] x.k = "ok" -> Fields("Result", <<"type: \"success\"", "value: " \o T(x.v), "error: null">>)
           [] x.k = "fail" -> Fields("Result", <<"type: \"error\"", "value: null", "error: " \o T(x.v)>>)
           [] x.k = "type" -> Fields("Type", <<"name: \"" \o x.v \o "\"">>)
           [] x.k = "exc" -> Fields("Exception", <<"message: " \o Quoted(x.v), "trace: null">>)
           [] x.k = "coro" -> Fields("Coroutine", <<"name: \"" \o x.v \o "\"">>)
           [] x.k = "opaque" -> x.v

(* ---- operations ---- *)
Plain == {"null", "bool", "int", "str", "sym"}
SameKey(ns, a, b) == a = b \/ (ns[a].k \in Plain /\ ns[b].k = ns[a].k /\ ns[a].v = ns[b].v)
KeyPos(ns, keys, r) == LET s == {j \in DOMAIN keys : SameKey(ns, keys[j], r)} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
(* c: the number of coroutines so far; m: [ns |-> values, c |-> .., out |-> observations] *)
New(m, k, v) == [m EXCEPT !.ns = Append(@, [k |-> k, v |-> v])]
Put(m, r, v) == [m EXCEPT !.ns[r].v = v]
Obs(m, o) == [m EXCEPT !.out = Append(@, o)]
Do(m, o) ==
    LET ns == m.ns  c(n) == ns[n].v IN
    CASE o[1] = "new" -> New(m, o[2], o[3])
      [] o[1] = "typeof" -> New(m, "type", TypeName(ns[o[2]]))
      [] o[1] = "schemaof" -> New(m, "schema", [j \in DOMAIN c(o[2]) |-> c(o[2])[j][1]])
      [] o[1] = "launch" -> [New(m, "coro", "Coroutine-" \o ToString(m.c + 1)) EXCEPT !.c = @ + 1]
      [] o[1] = "append" -> Put(m, o[2], Append(c(o[2]), o[3]))
      [] o[1] = "index" -> Put(m, o[2], [c(o[2]) EXCEPT ![o[3]] = o[4]])                             \* arrays and tuples
      [] o[1] = "field" -> Put(m, o[2], [c(o[2]) EXCEPT ![o[3]] = <<@[1], o[4]>>])
      [] o[1] = "put" -> LET p == KeyPos(ns, [j \in DOMAIN c(o[2]) |-> c(o[2])[j][1]], o[3]) IN
                         Put(m, o[2], IF p = 0 THEN Append(c(o[2]), <<o[3], o[4]>>) ELSE [c(o[2]) EXCEPT ![p] = <<@[1], o[4]>>])
      [] o[1] = "insert" -> IF KeyPos(ns, c(o[2]), o[3]) # 0 THEN m ELSE Put(m, o[2], Append(c(o[2]), o[3]))
      [] o[1] = "remove" -> LET p == KeyPos(ns, IF ns[o[2]].k = "set" THEN c(o[2]) ELSE [j \in DOMAIN c(o[2]) |-> c(o[2])[j][1]], o[3]) IN
                            IF p = 0 THEN m ELSE Put(m, o[2], Without(c(o[2]), p))
      [] o[1] = "clear" -> Put(m, o[2], <<>>)
      [] o[1] = "repr" -> Obs(m, Text(ns, o[2], {}, o[3], m.names))
      [] o[1] = "is" -> Obs(m, IF TypeName(ns[o[2]]) = o[3] THEN "true" ELSE "false")
      [] o[1] = "name" -> Obs(m, ns[o[2]].v)                                                         \* of a coroutine
      [] o[1] = "outcome" -> Obs(m, IF ns[o[2]].k = "ok" THEN "#success" ELSE "#error")            \* Result.type()
Expected(cs, names) == FoldLeft(Do, [ns |-> <<>>, c |-> cs.base, names |-> names, out |-> <<>>], cs.ops).out

Check(cs) == LET e == Expected(cs, cs.names) IN
             IF e = cs.r \/ Expected(cs, <<>>) = cs.r THEN TRUE
             ELSE LET d == {j \in DOMAIN e : j > Len(cs.r) \/ (j <= Len(cs.r) /\ e[j] # cs.r[j])}
                      j == IF d = {} THEN 0 ELSE CHOOSE x \in d : \A y \in d : x <= y IN
                  PrintT("BAD|" \o cs.id \o "|" \o IF d = {} THEN "more observations than operations"
                         ELSE "observation " \o ToString(j) \o " should be " \o ToString(e[j]) \o " and is " \o (IF j > Len(cs.r) THEN "missing" ELSE ToString(cs.r[j])))
Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == Check(Cases[i])
=============================================================================
