------------------------------ MODULE TiroTrace ------------------------------
(* Trace validation: TiroCore replays the host program of every recorded session; each observation the machine makes *)
(* has to be the next one recorded from the implementation.  One initial state per session; TLC explores the         *)
(* (deterministic) behaviour of the machine; the verdict of a session is printed when its behaviour ends.            *)
EXTENDS TiroCore, Json, IOUtils
VARIABLES m, l, verdict
vars == <<m, l, verdict>>

(* read once: TLC would evaluate the definition again at each use *)
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Traces == Progs
Log(t) == Traces[t].log
StepsPerState == 40
MaxSteps == 300        \* states per session (micro steps = StepsPerState times more)

(* Does the recorded value match the specified one?  "*": the text of a run time error is not specified. *)
RECURSIVE Match(_, _)
IsTuple(x) == DOMAIN x = 1..Len(x)
(* records: order of the properties is irrelevant *)
MatchPairs(s, a) == Len(s) = Len(a) /\ \A i \in 1..Len(s) : \E j \in 1..Len(a) : s[i][1] = a[j][1] /\ Match(s[i][2], a[j][2])
Same(s, a) == ToString(s) = ToString(a)       \* safe for values of any shape
Count(s, x) == Cardinality({i \in 1..Len(s) : Same(s[i], x)})
SameBag(s, t) == \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Match(s, a) ==
    CASE s = <<>> -> a = <<>>
      [] Len(a) # Len(s) -> FALSE
      [] s[1] \in {"ex", "s", "f"} -> (s[1] = a[1] /\ (s[2] = ERR \/ s[2] = a[2]) /\ (Len(s) = 2 \/ Same(s[3], a[3])))
      [] s[1] \in {"t", "a"} -> s[1] = a[1] /\ Len(s[2]) = Len(a[2]) /\ \A i \in 1..Len(s[2]) : Match(s[2][i], a[2][i])
      [] s[1] \in {"ok", "err"} -> s[1] = a[1] /\ Match(s[2], a[2])
      [] s[1] = "r" -> a[1] = "r" /\ MatchPairs(s[2], a[2])
      [] OTHER -> Same(s, a)
MatchAll(s, a) == Len(s) = Len(a) /\ \A i \in 1..Len(s) : Match(s[i], a[i])
(* observations *)
MatchEv(s, a) ==
    CASE a[1] # s[1] -> FALSE
      [] s[1] = "t" -> MatchAll(Tail(s), Tail(a))
      [] s[1] = "call" -> Len(a) = 4 /\ Same(s[2], a[2]) /\ Same(s[3], a[3]) /\ (Len(s[4]) = 0 \/ Match(s[4], a[4]))
      [] s[1] = "show" -> Same(s[2], a[2]) /\ Match(s[3], a[3])
      [] s[1] = "status" -> Same(SubSeq(s, 2, 5), SubSeq(a, 2, 5)) /\ Match(s[6], a[6])
      [] s[1] = "cb" -> Same(SubSeq(s, 2, 4), SubSeq(a, 2, 4)) /\ Match(s[5], a[5])
      [] s[1] = "rs" -> Same(s[2], a[2]) /\ Same(s[3], a[3]) /\ MatchAll(s[4], a[4]) /\ MatchAll(s[5], a[5])
      [] s[1] = "n" -> /\ Len(s) = Len(a) /\ s[2] = a[2] /\ s[3] = a[3]
                       /\ IF s[3] = "args" THEN MatchAll(s[4], a[4]) /\ Same(s[5], a[5])
                          ELSE IF s[3] \in {"invoke", "setlocal", "ret", "panic", "yield", "state"} THEN Same(s, a)
                          ELSE MatchAll(SubSeq(s, 4, Len(s)), SubSeq(a, 4, Len(a)))
      [] s[1] = "load" /\ Len(s) = 5 -> Len(a) = 5 /\ Same(SubSeq(s, 2, 4), SubSeq(a, 2, 4))
      [] s[1] = "api" -> /\ Len(a) = 4 /\ s[2] = a[2] /\ s[3] = a[3]
                         /\ IF s[2] = "record_keys" /\ s[4][1] = "a" THEN a[4][1] = "a" /\ Len(a[4][2]) = Len(s[4][2]) /\ SameBag(s[4][2], a[4][2])   \* in any order
                            ELSE Match(s[4], a[4])
      [] s[1] = "print" -> (s[2] = ERR \/ s[2] = a[2])
      [] OTHER -> Same(s, a)

(* compare what the machine emitted in its last steps with the log: -> number of matched events *)
RECURSIVE Matched(_, _, _)
Matched(out, log, pos) ==
    IF out = <<>> THEN pos
    ELSE IF pos > Len(log) THEN pos
    ELSE IF out[1][1] = "anyorder" THEN
        LET n == Len(out[1][2]) IN
        IF pos + n - 1 <= Len(log) /\ SameBag(out[1][2], SubSeq(log, pos, pos + n - 1)) THEN Matched(Tail(out), log, pos + n) ELSE pos
    ELSE IF MatchEv(out[1], log[pos]) THEN Matched(Tail(out), log, pos + 1) ELSE pos

RECURSIVE Size(_)          \* number of log entries the events stand for
Size(out) == IF out = <<>> THEN 0 ELSE (IF out[1][1] = "anyorder" THEN Len(out[1][2]) ELSE 1) + Size(Tail(out))

RECURSIVE Steps(_, _)
Steps(s, n) == IF n = 0 \/ s.ctl[1] = "done" \/ (Len(s.out) > 0 /\ n < StepsPerState - 30) THEN s ELSE Steps(TLCEval(Step(s)), n - 1)

Init == /\ \E t \in 1..Len(Traces) : m = InitState(t)
        /\ l = 1
        /\ verdict = "run"

Next == /\ verdict = "run"
        /\ LET s == Steps(m, StepsPerState)
               n == Matched(s.out, Log(m.tid), l)
               ok == n = l + Size(s.out)
               lg == Log(m.tid)
           IN /\ m' = [s EXCEPT !.out = <<>>]
              /\ l' = n
              /\ verdict' = IF ~ok THEN "reject"
                            ELSE IF s.ab # "" THEN "abandon"
                            ELSE IF s.ctl[1] = "done" THEN (IF n = Len(lg) + 1 THEN "ok" ELSE "reject")
                            ELSE IF TLCGet("level") > MaxSteps THEN "long"
                            ELSE "run"
              /\ (verdict' = "run" \/
                  PrintT(<<"VERDICT", Traces[m.tid].id, verdict', n,
                           IF verdict' = "reject" THEN ToString(IF ok THEN <<"nothing more">> ELSE s.out[Min(Len(s.out), n - l + 1)]) ELSE s.ab,
                           IF verdict' = "reject" THEN ToString(IF n <= Len(lg) THEN lg[n] ELSE <<"nothing">>) ELSE "">>))

Spec == Init /\ [][Next]_vars
Sane == verdict = "run" => MachineOK(m)
=============================================================================
