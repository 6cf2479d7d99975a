------------------------------- MODULE Blocks -------------------------------
(* C03: storage.  A block is the storage of a native object or a buffer, identified by its address (in units of 2^20 and     *)
(* the rest), size and the register it was created for.  Registers refer to blocks; a block is live while a register refers  *)
(* to it.  A history is a sequence of operations with the observed addresses, sizes, contents, error codes and the total     *)
(* memory of the machine's heap afterwards.                                                                                    *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)
Mega == 1048576

Block(e) == [hi |-> e[4], lo |-> e[5], size |-> e[6], name |-> e[2], zero |-> e[7]]
(* bytes from the start of a to the start of b, for a before b; "far" when they are more than 1000 units apart *)
Dist(a, b) == IF b.hi - a.hi > 1000 THEN 1000 * Mega ELSE (b.hi - a.hi) * Mega + (b.lo - a.lo)
Before(a, b) == a.hi < b.hi \/ (a.hi = b.hi /\ a.lo <= b.lo)
Disjoint(a, b) == IF Before(a, b) THEN Dist(a, b) >= a.size ELSE Dist(b, a) >= b.size

Live(m) == {m[x] : x \in DOMAIN m}
Bytes(S) == FoldSet(LAMBDA b, a : a + b.size, 0, S)
Cost(S) == Bytes(S) + 128 * Cardinality(S)
Bind(m, x, b) == [y \in (DOMAIN m) \union {x} |-> IF y = x THEN b ELSE m[y]]
Unbind(m, x) == [y \in (DOMAIN m) \ {x} |-> m[y]]
Limit(c) == c.max
(* An allocation of this size may fail when the live storage is a considerable part of the limit; storage of large objects   *)
(* (which are not placed on pages) may also fail when the memory obtained so far, with pages, and the object exceed the limit. *)
MayFail(c, m, size, total) == /\ Limit(c) # 0
                              /\ \/ Cost(Live(m)) + size > Limit(c) \div 8
                                 \/ size >= c.page \div 8 /\ total + size + 512 > Limit(c)

(* one event of an allocation of `size` bytes with alignment `align` *)
AllocEvent(c, m, e, size, align) ==
    IF e[3] = "ALLOC" THEN IF MayFail(c, m, size, e[8]) THEN <<m, "">> ELSE <<m, "failed within the limit">>
    ELSE IF e[3] # "OK" THEN <<m, "error " \o e[3]>>
    ELSE LET b == Block(e) IN
         <<Bind(m, e[2], b),
           IF b.size # size THEN "size"
           ELSE IF b.lo % align # 0 THEN "alignment"
           ELSE IF ~ b.zero THEN "not zeroed"
           ELSE IF \E x \in DOMAIN m : ~ Disjoint(m[x], b) THEN "overlaps a live block"
           ELSE IF Limit(c) # 0 /\ e[8] > Limit(c) THEN "limit exceeded"
           ELSE IF e[8] < Bytes(Live(Bind(m, e[2], b))) THEN "total"
           ELSE "">>
AllocEvents(c, m, es, o) == FoldLeft(LAMBDA a, e : IF a[2] # "" THEN a ELSE AllocEvent(c, a[1], e, o[4], o[5]), <<m, "">>, es)

Same(m, b, x) == x \in DOMAIN m /\ m[x].hi = b.hi /\ m[x].lo = b.lo /\ m[x].size = b.size
(* operation o with the events es: the next state and a complaint *)
Step(c, m, o, es) ==
    CASE o[1] = "block" -> IF Len(es) = 1 THEN AllocEvents(c, m, es, o) ELSE <<m, "events">>
      [] o[1] = "fill" -> \* many blocks; only the last attempt may fail, and less than the wanted number means that it did
            LET r == AllocEvents(c, m, es, o) IN
            IF r[2] # "" THEN r
            ELSE IF es = <<>> \/ (\E k \in 1..Len(es) - 1 : es[k][3] # "OK") \/ (Len(es) < o[6] /\ es[Len(es)][3] = "OK") THEN <<m, "events">> ELSE r
      [] o[1] = "drop" -> <<Unbind(m, o[2]), "">>
      [] o[1] = "dropfill" -> <<[y \in (DOMAIN m) \ {o[2] \o ToString(k) : k \in 0..(o[3] - 1)} |-> m[y]], "">>
      [] o[1] = "copy" -> <<IF o[3] \in DOMAIN m THEN Bind(m, o[2], m[o[3]]) ELSE Unbind(m, o[2]), "">>
      [] o[1] = "intact" -> <<m, IF o[2] \notin DOMAIN m THEN ""        \* refused before
                                 ELSE IF Len(es) # 1 THEN "events" ELSE IF es[1][6] # TRUE THEN "contents changed"
                                 ELSE IF es[1][3] # m[o[2]].hi \/ es[1][4] # m[o[2]].lo \/ es[1][5] # m[o[2]].size THEN "moved" ELSE "">>
      [] o[1] = "script" -> \* allocates about o[2] bytes of garbage or of storage that it keeps
            <<m, IF Len(es) # 2 THEN "events" ELSE IF es[1] = "ok" THEN ""
                 ELSE IF es[1] = "ALLOC" THEN (IF MayFail(c, m, o[2], es[2]) THEN "" ELSE "failed within the limit") ELSE "error">>
      [] o[1] = "total" -> <<m, IF Limit(c) # 0 /\ es[1] > Limit(c) THEN "limit exceeded" ELSE "">>
      [] o[1] = "mem" -> \* memory allocated by the process for the machine, in bytes (an aligned page can cost twice its size)
            <<m, IF Limit(c) # 0 /\ es[1] > 2 * Limit(c) + 4 * Mega THEN "process memory beyond the limit" ELSE "">>
      [] o[1] = "freed" -> <<m, IF es[1] > 8192 THEN "memory not returned" ELSE "">>
      [] OTHER -> <<m, "">>

Walk(c) == FoldLeft(LAMBDA a, k : IF a.bad # "" THEN a
                                  ELSE IF k > Len(c.obs) THEN [a EXCEPT !.bad = "crashed at operation " \o ToString(k)]
                                  ELSE LET r == Step(c, a.m, c.ops[k], c.obs[k]) IN
                                       [m |-> r[1], bad |-> IF r[2] = "" THEN "" ELSE r[2] \o " at operation " \o ToString(k)],
                    [m |-> <<>>, bad |-> ""], [k \in 1..Len(c.ops) |-> k])

Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == LET c == Cases[i]
              f == Walk(c).bad
          IN f = "" \/ PrintT("BAD|" \o c.id \o "|" \o f)
=============================================================================
