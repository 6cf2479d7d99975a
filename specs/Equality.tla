------------------------------ MODULE Equality ------------------------------
(* C17: equality of values, and dictionaries keyed by it.  A value is described by its content:                            *)
(*   [k |-> "num", v |-> <<sign, byte0, ...>>]  the exact numeric value times 2^64 in base 256 (integers and floats alike)   *)
(*   [k |-> "str", v |-> text], [k |-> "sym", v |-> name], [k |-> "bool", v |-> b], [k |-> "null"], [k |-> "nan"]            *)
(*   [k |-> "obj", v |-> identity]                                                                                          *)
(* A case lists values and what the implementation computed with all of them.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

Eq(a, b) == a.k = b.k /\ a.k # "nan" /\ (a.k = "null" \/ a.v = b.v)

(* order of numbers: sign (1 is negative), then magnitudes without leading zeros *)
RECURSIVE CmpAt(_, _, _)
CmpAt(x, y, k) == IF k = 1 THEN 0 ELSE IF x[k] # y[k] THEN (IF x[k] > y[k] THEN 1 ELSE -1) ELSE CmpAt(x, y, k - 1)
Mag(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) > Len(y) THEN 1 ELSE -1) ELSE CmpAt(x, y, Len(x))
Cmp(x, y) == IF x[1] # y[1] THEN (IF x[1] = 1 THEN -1 ELSE 1) ELSE (IF x[1] = 1 THEN -1 ELSE 1) * Mag(x, y)

Bool(p) == IF p THEN 1 ELSE 0
(* what the operators ==, !=, <, <=, >, >= yield: one bit each, the last four for numbers only *)
Ops(a, b) ==
    Bool(Eq(a, b)) + 2 * Bool(~Eq(a, b)) +
    (IF a.k = "num" /\ b.k = "num"
       THEN LET c == Cmp(a.v, b.v) IN 4 * Bool(c < 0) + 8 * Bool(c <= 0) + 16 * Bool(c > 0) + 32 * Bool(c >= 0)
       ELSE 0)

-----------------------------------------------------------------------------
(* the dictionary that results from storing value number j under key ks[j], one after the other *)
Same(ks, j, S) == {n \in S : Eq(ks[n], ks[j])}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
First(ks, n) == {j \in 1..n : Same(ks, j, 1..(j - 1)) = {}}              \* representatives, in order of first insertion
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})
Found(ks) == [j \in 1..Len(ks) |-> Bool(Same(ks, j, 1..(j - 1)) # {})]    \* contains() before storing
Sizes(ks) == [j \in 1..Len(ks) |-> Cardinality(First(ks, j))]
Look(ks) == [j \in 1..Len(ks) |-> Max(Same(ks, j, 1..Len(ks)))]
Order(ks) == LET s == Sorted(First(ks, Len(ks))) IN [n \in 1..Len(s) |-> Look(ks)[s[n]]]
Left(ks, rm) == [j \in 1..Len(ks) |-> Bool(\A q \in 1..Len(rm) : ~Eq(ks[j], ks[rm[q]]))]

Failed(c) ==
    CASE c.k = "pairs" -> {<<x, y>> \in (1..Len(c.vs)) \X (1..Len(c.vs)) : c.r[(x - 1) * Len(c.vs) + y] # Ops(c.vs[x], c.vs[y])}
      [] c.k = "const" -> {n \in 1..Len(c.ps) : c.r[n] # Ops(c.vs[c.ps[n][1]], c.vs[c.ps[n][2]])}
      [] c.k = "keys" -> {f \in {"found", "ins", "sizes", "look", "order", "left"} :
            CASE f = "found" -> c.found # Found(c.vs)
              [] f = "ins" -> c.ins # [j \in 1..Len(c.vs) |-> 1 - Found(c.vs)[j]]
              [] f = "sizes" -> c.sizes # Sizes(c.vs)
              [] f = "look" -> c.look # Look(c.vs)
              [] f = "order" -> c.order # Order(c.vs)
              [] f = "left" -> c.left # Left(c.vs, c.rm)}
      [] OTHER -> {"missing"}

(* equality as specified is an equivalence on everything but not-a-number; checked on the values of every case *)
Law(c) == c.k # "pairs" \/
          \A x, y \in 1..Len(c.vs) : LET a == c.vs[x]
                                         b == c.vs[y]
                                     IN /\ (a.k # "nan" => Eq(a, a))
                                        /\ Eq(a, b) = Eq(b, a)
                                        /\ \A z \in 1..Len(c.vs) : Eq(a, b) /\ Eq(b, c.vs[z]) => Eq(a, c.vs[z])
                                        /\ (a.k = "num" /\ b.k = "num" => ((Cmp(a.v, b.v) = 0) <=> Eq(a, b)))

Chains == 64
Init == i \in 1..Chains /\ i <= Len(Cases)
Next == i + Chains <= Len(Cases) /\ i' = i + Chains
Spec == Init /\ [][Next]_i
Report(c, f) == PrintT("BAD|" \o c.id \o "|" \o ToString(f))
Checks == LET f == Failed(Cases[i]) IN f = {} \/ Report(Cases[i], f)
Laws == Law(Cases[i])
=============================================================================
