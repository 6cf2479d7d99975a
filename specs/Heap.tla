-------------------------------- MODULE Heap --------------------------------
(* C02: reclamation.  The state is an object graph: nodes with slots that refer to other nodes, and roots (registers of     *)
(* the host, variables of the script module, members of native modules, the ready queue).  Some nodes are native objects   *)
(* with a finalizer.  A history is a sequence of graph operations, each with the finalizers that were seen to run while     *)
(* the machine carried it out.  A finalizer may run only for a node that is unreachable; an explicit collection runs the    *)
(* finalizers of all unreachable nodes that were not yet finalized; freeing the machine runs all others.  None runs twice.  *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

(* nodes are numbered in order of creation, 0 is null; nd[n] = [s: slots, t: tag (0: no finalizer), z: size] *)
Deref(r, x) == IF x \in DOMAIN r THEN r[x] ELSE 0
Bind(f, x, v) == IF v = 0 THEN [y \in (DOMAIN f) \ {x} |-> f[y]] ELSE [y \in (DOMAIN f) \union {x} |-> IF y = x THEN v ELSE f[y]]
Put(s, j, v) == [k \in 1..(IF j > Len(s) THEN j ELSE Len(s)) |-> IF k = j THEN v ELSE IF k <= Len(s) THEN s[k] ELSE 0]

RECURSIVE Closure(_, _, _)
Closure(nd, S, F) == IF F = {} THEN S
                     ELSE LET N == (UNION {{nd[n].s[k] : k \in DOMAIN nd[n].s} : n \in F}) \ (S \union {0})
                          IN Closure(nd, S \union N, N)
Reach(m) == LET R == ({m.r[x] : x \in DOMAIN m.r} \union {m.q[k] : k \in DOMAIN m.q}) \ {0} IN Closure(m.nd, R, R)

Node(m, slots, tag, size) == [m EXCEPT !.nd = Append(@, [s |-> slots, t |-> tag, z |-> size])]
Newest(m) == Len(m.nd)
Fresh(m, r, slots) == LET a == Node(m, slots, 0, 0) IN [a EXCEPT !.r = Bind(@, r, Newest(a))]
Slot(m, n, f(_)) == IF n = 0 THEN m ELSE [m EXCEPT !.nd[n].s = f(@)]

(* the effect of an operation on the graph; x, y, ... are names of roots *)
Apply(m, o) ==
    CASE o[1] = "native" -> LET a == Node(m, <<>>, o[3], o[4]) IN [a EXCEPT !.r = Bind(@, o[2], Newest(a))]       \* x := new native object
      [] o[1] = "new" -> Fresh(m, o[2], [k \in 1..Len(o[3]) |-> Deref(m.r, o[3][k])])                           \* x := new node with these slots
      [] o[1] = "pair" -> LET a == Node(m, <<Deref(m.r, o[4])>>, 0, 0)                                          \* x, y := two nodes sharing a third
                          IN Fresh(Fresh(a, o[2], <<Newest(a)>>), o[3], <<Newest(a)>>)
      [] o[1] = "cowait" -> LET a == Node(m, <<Deref(m.r, o[4])>>, 0, 0)                                        \* x := suspended coroutine, y := its token
                            IN Fresh([a EXCEPT !.r = Bind(@, o[2], Newest(a))], o[3], <<Newest(a)>>)
      [] o[1] = "iter" -> LET n == Deref(m.r, o[3]) IN                                                          \* x := coroutine suspended in a loop over the array y
                          LET a == Node(m, <<n, Head(m.nd[n].s)>>, 0, 0) IN [a EXCEPT !.r = Bind(@, o[2], Newest(a))]
      [] o[1] = "enqueue" -> [m EXCEPT !.q = Append(@, Deref(m.r, o[2]))]                                      \* started: referred to by the machine
      [] o[1] = "run" -> [m EXCEPT !.q = <<>>]
      [] o[1] = "set" -> LET v == Deref(m.r, o[4]) IN Slot(m, Deref(m.r, o[2]), LAMBDA s : Put(s, o[3], v))     \* x[k] := y
      [] o[1] = "set2" -> LET n == Deref(m.r, o[2])                                                             \* the shared node of a pair: x[1][1] := y
                              v == Deref(m.r, o[3])
                          IN IF n = 0 THEN m ELSE Slot(m, m.nd[n].s[1], LAMBDA s : Put(s, 1, v))
      [] o[1] = "append" -> LET v == Deref(m.r, o[3]) IN Slot(m, Deref(m.r, o[2]), LAMBDA s : Append(s, v))
      [] o[1] = "pop" -> Slot(m, Deref(m.r, o[2]), LAMBDA s : IF s = <<>> THEN s ELSE Front(s))
      [] o[1] = "clear" -> Slot(m, Deref(m.r, o[2]), LAMBDA s : <<>>)
      [] o[1] = "get" -> LET n == Deref(m.r, o[3])                                                              \* x := y[k]
                         IN [m EXCEPT !.r = Bind(@, o[2], IF n # 0 /\ o[4] <= Len(m.nd[n].s) THEN m.nd[n].s[o[4]] ELSE 0)]
      [] o[1] = "get2" -> LET n == Deref(m.r, o[3]) IN [m EXCEPT !.r = Bind(@, o[2], IF n = 0 THEN 0 ELSE m.nd[m.nd[n].s[1]].s[1])]
      [] o[1] = "remove" -> LET v == Deref(m.r, o[3]) IN Slot(m, Deref(m.r, o[2]), LAMBDA s : SelectSeq(s, LAMBDA y : y # v))
      [] o[1] = "copy" -> [m EXCEPT !.r = Bind(@, o[2], Deref(m.r, o[3]))]                                      \* x := y
      [] o[1] = "drop" -> [m EXCEPT !.r = Bind(@, o[2], 0)]
      [] o[1] = "burst" -> [m EXCEPT !.nd = @ \o [k \in 1..o[3] |-> [s |-> <<>>, t |-> o[2] + k - 1, z |-> o[4]]]]   \* native objects that are dropped at once
      [] OTHER -> m

Native(m) == {n \in DOMAIN m.nd : m.nd[n].t # 0}
Cost(m, live) == FoldLeft(LAMBDA a, n : a + (IF n \in live THEN 96 + 96 * Len(m.nd[n].s) + m.nd[n].z ELSE 0), 0, [n \in DOMAIN m.nd |-> n])

(* fins: the pairs <<tag, size>> seen during the operation *)
Judge(m, o, fins, res, max) ==
    LET live == IF o[1] = "free" THEN {} ELSE Reach(m)
        dead == {<<m.nd[n].t, m.nd[n].z>> : n \in Native(m) \ live}
        seen == {fins[k] : k \in DOMAIN fins}
    IN CASE Cardinality(seen) # Len(fins) -> "finalized twice in one operation"
         [] seen \intersect m.done # {} -> "finalized again"
         [] ~ (seen \subseteq dead) -> "finalized while reachable (or with other data)"
         [] o[1] \in {"gc", "free"} /\ seen # dead \ m.done -> "not finalized"
         [] res # "ok" /\ (max = 0 \/ Cost(m, live) <= max \div 4) -> "failed within the limit"
         [] res \notin {"ok", "ALLOC"} -> "failed"
         [] OTHER -> ""

Walk(c) == FoldLeft(LAMBDA a, k : IF a.bad # "" THEN a
                                  ELSE LET o == c.ops[k]
                                           b == Apply(a, o)
                                           j == IF k > Len(c.fins) THEN "crashed" ELSE Judge(b, o, c.fins[k], c.res[k], c.max)
                                       IN IF j # "" THEN [b EXCEPT !.bad = j \o " at operation " \o ToString(k)]
                                          ELSE IF c.res[k] # "ok" THEN [b EXCEPT !.bad = "-"]
                                          ELSE [b EXCEPT !.done = @ \union {c.fins[k][x] : x \in DOMAIN c.fins[k]}],
                    [nd |-> <<>>, r |-> <<>>, q |-> <<>>, done |-> {}, bad |-> ""], [k \in 1..Len(c.ops) |-> k])

Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == LET c == Cases[i]
              f == Walk(c).bad
          IN f \in {"", "-"} \/ PrintT("BAD|" \o c.id \o "|" \o f)
=============================================================================
