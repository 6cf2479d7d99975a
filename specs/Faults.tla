------------------------------- MODULE Faults -------------------------------
(* C03: an allocation that fails inside a script.  Coroutine k performs steps 1..steps[k], reports every step and gives way   *)
(* after every yields[k] steps.  When an allocation fails while the machine runs, the run stops with ALLOC, the coroutine     *)
(* that was running is lost (started, never completed) and nothing else happens: the next run goes on with the others, in     *)
(* order.  Where in a coroutine the allocation failed is not known, so the history is followed with a set of states.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

(* state: q the ready coroutines, p the steps done, owed the coroutines that give way next, done, lost *)
First(c) == [q |-> [k \in 1..Len(c.steps) |-> k], p |-> [k \in 1..Len(c.steps) |-> 0], owed |-> {}, done |-> {}, lost |-> {}]
Silent(c, s) ==
    IF s.q = <<>> THEN {}
    ELSE LET h == Head(s.q) IN
         IF h \in s.owed THEN {[s EXCEPT !.q = Append(Tail(s.q), h), !.owed = @ \ {h}]}
         ELSE IF s.p[h] = c.steps[h] THEN {[s EXCEPT !.q = Tail(s.q), !.done = @ \union {h}]}
         ELSE {}
RECURSIVE Closure(_, _)
Closure(c, S) == LET T == S \union UNION {Silent(c, s) : s \in S} IN IF T = S THEN S ELSE Closure(c, T)
Report(c, s, h, n) == [s EXCEPT !.p[h] = n, !.owed = IF n % c.yields[h] = 0 THEN @ \union {h} ELSE @]
Value(c, h) == (c.steps[h] * (c.steps[h] + 1) * h) \div 2

(* event e: the states afterwards *)
After(c, S, e) ==
    CASE e[1] = "step" -> {Report(c, s, e[2], e[3]) : s \in {x \in Closure(c, S) : x.q # <<>> /\ Head(x.q) = e[2] /\ e[2] \notin x.owed /\ x.p[e[2]] + 1 = e[3] /\ e[3] <= c.steps[e[2]]}}
      [] e[1] = "run" -> IF e[2] = "OK" THEN {s \in Closure(c, S) : s.q = <<>>}
                         ELSE IF e[2] = "ALLOC" /\ e[3] THEN {[s EXCEPT !.q = Tail(s.q), !.lost = @ \union {Head(s.q)}, !.owed = @ \ {Head(s.q)}] : s \in {x \in Closure(c, S) : x.q # <<>>}}
                         ELSE {}
      [] e[1] = "ready" -> {s \in S : e[2] = (s.q # <<>>)}
      [] e[1] = "status" -> {s \in S : IF e[3] THEN e[2] \in s.done /\ e[4] = Value(c, e[2]) ELSE e[2] \notin s.done}
      [] e[1] = "fresh" -> IF e[2] THEN S ELSE {}
      [] OTHER -> {}

RECURSIVE Follow(_, _, _)
Follow(c, S, k) == IF k > Len(c.obs) THEN "" ELSE LET T == After(c, S, c.obs[k]) IN IF T = {} THEN "event " \o ToString(k) ELSE Follow(c, T, k + 1)
Verdict(c) == LET r == Follow(c, {First(c)}, 1) IN IF r # "" THEN r ELSE IF Len(c.obs) # c.len THEN "incomplete 0" ELSE ""

Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
Checks == LET v == Verdict(Cases[i]) IN v = "" \/ PrintT("BAD|" \o Cases[i].id \o "|" \o v)
=============================================================================
