------------------------------ MODULE TiroMC ------------------------------
(* Exhaustive exploration of TiroCore with a nondeterministic host: after a fixed prelude the host may choose any      *)
(* command of a menu, again and again.  Every state of the machine is checked; every transition between host prompts   *)
(* is printed together with the commands that lead to it, and is replayed against the implementation.                  *)
EXTENDS TiroCore, Json, IOUtils
VARIABLES m, hist, n
vars == <<m, hist, n>>

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Menu(t) == Progs[t].menu
Depth(t) == Progs[t].depth

AtPrompt(s) == s.ctl[1] = "rt" /\ s.k # <<>> /\ s.k[1][1] = "cmds" /\ s.k[1][2] > Len(Progs[s.tid].cmds)
RECURSIVE Run(_)           \* to the next prompt; every state on the way has to be sane
Run(s) == IF s.ctl[1] = "done" \/ AtPrompt(s) THEN s
          ELSE LET t == TLCEval(Step(s)) IN IF MachineOK(t) THEN Run(t) ELSE [t EXCEPT !.ab = "INSANE", !.ctl = <<"done">>]

Init == /\ \E t \in 1..Len(Progs) : m = LET s == Run(InitState(t)) IN [s EXCEPT !.out = <<>>]
        /\ hist = <<>>
        /\ n = 0
Next == /\ n < Depth(m.tid)
        /\ m.ctl[1] # "done"
        /\ \E i \in 1..Len(Menu(m.tid)) :
              LET s == Run(HostStep(m, Menu(m.tid)[i]))
                  h == Append(hist, i)
              IN /\ m' = [s EXCEPT !.out = <<>>]
                 /\ hist' = h
                 /\ n' = n + 1
                 /\ PrintT("EDGE|" \o ToString(m.tid) \o "|" \o s.ab \o "|" \o ToJson(h) \o "|" \o ToJson(s.out))
Spec == Init /\ [][Next]_vars
View == m
Sane == m.ab # "INSANE"
=============================================================================
