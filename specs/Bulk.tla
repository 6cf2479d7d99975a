-------------------------------- MODULE Bulk --------------------------------
(* C12: containers with many elements.  The container is a sequence of numbers; operations work on many positions at once  *)
(* and are carried out by loops of scripts (append, set) or by host calls (push, pop).  An observation reports the size,   *)
(* two digests (reading by position / by iteration) and the values at chosen positions.                                    *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

Apply(s, o) ==
    CASE o[1] = "new" -> [j \in 1..o[2] |-> o[3]]                                         \* n times the value v
      [] o[1] = "append" -> s \o [j \in 1..o[2] |-> o[3] + o[4] * (j - 1)]                \* n values a, a + b, ...
      [] o[1] = "push" -> s \o [j \in 1..o[2] |-> o[3]]
      [] o[1] = "pop" -> SubSeq(s, 1, IF o[2] > Len(s) THEN 0 ELSE Len(s) - o[2])
      [] o[1] = "clear" -> <<>>
      [] o[1] = "set" ->                                                                 \* positions p, p + q, ... : n of them, values v, v + 1, ...
            [j \in 1..Len(s) |-> LET d == j - 1 - o[2] IN IF d >= 0 /\ d % o[3] = 0 /\ d \div o[3] < o[4] THEN o[5] + d \div o[3] ELSE s[j]]
      [] o[1] = "bytes" ->                                                               \* the same, modulo 256
            [j \in 1..Len(s) |-> LET d == j - 1 - o[2] IN IF d >= 0 /\ d % o[3] = 0 /\ d \div o[3] < o[4] THEN (o[5] + d \div o[3]) % 256 ELSE s[j]]
      [] OTHER -> s

Digest(s) == FoldLeft(LAMBDA d, x : (d * 31 + x) % 65521, 7, s)
Obs(s, ps) == <<Len(s), Len(s), Digest(s), Digest(s), [j \in 1..Len(ps) |-> IF ps[j] < Len(s) THEN s[ps[j] + 1] ELSE -1]>>

(* the number of the first observation that differs, 0 if there is none *)
Walk(c) == FoldLeft(LAMBDA a, o : IF a.bad # 0 THEN a
                                  ELSE IF o[1] = "obs" THEN [a EXCEPT !.n = @ + 1, !.bad = IF a.n + 1 <= Len(c.r) /\ c.r[a.n + 1] = Obs(a.s, o[2]) THEN 0 ELSE a.n + 1]
                                  ELSE [a EXCEPT !.s = Apply(@, o)], [s |-> <<>>, n |-> 0, bad |-> 0], c.ops)
(* tuples are read position by position *)
Read(c) == LET ops == SubSeq(c.ops, 1, Len(c.ops) - 1)
               s == FoldLeft(LAMBDA a, o : Apply(a, o), <<>>, ops)
               ps == c.ops[Len(c.ops)][2]
           IN IF c.r = <<Len(s), [j \in 1..Len(ps) |-> s[ps[j] + 1]]>> THEN 0 ELSE 1
Failed(c) == IF c.k = "tuple" THEN Read(c) ELSE Walk(c).bad

Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == LET c == Cases[i]
              f == Failed(c)
          IN f = 0 \/ PrintT("BAD|" \o c.id \o "|" \o ToString(f))
=============================================================================
