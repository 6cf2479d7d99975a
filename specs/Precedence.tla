----------------------------- MODULE Precedence -----------------------------
(* Grouping of operator expressions, declaratively: which operator of a flat sequence is applied last.
   A case is a flat sequence of items [t, x]: operands ("opd"), suffixes ("post"), prefix operators ("pre"), infix operators
   ("bin") and prefixes that take everything to their right ("open": return, function literals).
   For every case the fully parenthesised text is printed; the real compiler then has to give the flat text and the
   parenthesised text the same meaning.  Where the table puts an assignment on something that cannot be assigned, the
   word INVALID is printed and the flat text has to be rejected. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)
VARIABLE i

Assign == {"=", "+=", "-=", "*=", "**=", "/=", "%="}
Level(op) ==
    CASE op \in Assign -> 0
      [] op = "||" -> 1
      [] op = "&&" -> 2
      [] op = "??" -> 3
      [] op = "|" -> 4
      [] op = "^" -> 5
      [] op = "&" -> 6
      [] op \in {"==", "!="} -> 7
      [] op \in {"<", "<=", ">", ">="} -> 8
      [] op \in {"<<", ">>"} -> 9
      [] op \in {"+", "-"} -> 10
      [] op \in {"*", "/", "%"} -> 11
      [] op = "**" -> 12
RightAssoc(op) == op \in Assign \cup {"**"}

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Invalid == "INVALID"
Par(t) == "(" \o t \o ")"

(* positions of infix operators that are not swallowed by an open prefix *)
Visible(s) ==
    LET opens == {p \in 1..Len(s) : s[p].t = "open"}
        bound == IF opens = {} THEN Len(s) + 1 ELSE Min(opens)
    IN {p \in 1..Len(s) : s[p].t = "bin" /\ p < bound}

Root(s) ==
    LET v == Visible(s)
        low == {p \in v : \A q \in v : Level(s[p].x) <= Level(s[q].x)}
    IN IF \E p \in low : RightAssoc(s[p].x) THEN Min(low) ELSE Max(low)

(* suffixes apply from left to right; what follows an optional access belongs to the same chain *)
RECURSIVE Posts(_, _, _, _)
Posts(acc, s, p, chain) == IF p > Len(s) THEN acc ELSE Posts((IF chain THEN acc ELSE Par(acc)) \o s[p].x, s, p + 1, chain \/ s[p].k = "opt")

(* an operand that may stand left of an assignment: a variable or an element of any value; no prefix operator in front,
   not the result of a call, not behind an optional access; a tuple of variables only for plain assignment *)
Target(op, s) ==
    /\ s[1].t = "opd" /\ \A p \in 2..Len(s) : s[p].t = "post" /\ s[p].k # "opt"
    /\ s[Len(s)].k = "place" \/ (Len(s) = 1 /\ s[1].k = "tuple" /\ op = "=")

RECURSIVE Group(_)
Group(s) ==
    IF Visible(s) # {} THEN
        LET r == Root(s)
            op == s[r].x
            ls == SubSeq(s, 1, r - 1)
            rs == SubSeq(s, r + 1, Len(s))
            a == Group(ls)
            b == Group(rs)
        IN IF a = Invalid \/ b = Invalid \/ (op \in Assign /\ ~Target(op, ls)) THEN Invalid
           ELSE IF op \in Assign THEN a \o " " \o op \o " " \o Par(b)
           ELSE Par(a) \o " " \o op \o " " \o Par(b)
    ELSE IF s[1].t = "pre" THEN
        LET b == Group(Tail(s)) IN IF b = Invalid THEN Invalid ELSE s[1].x \o Par(b)
    ELSE IF s[1].t = "open" THEN
        LET b == Group(Tail(s)) IN IF b = Invalid THEN Invalid ELSE s[1].x \o " " \o Par(b)
    ELSE Posts(s[1].x, s, 2, FALSE)

Chains == 64
Init == i \in 1..Chains /\ i <= Len(Cases)
Next == i + Chains <= Len(Cases) /\ i' = i + Chains
Spec == Init /\ [][Next]_i
Checks == PrintT("GRP|" \o Cases[i].id \o "|" \o Group(Cases[i].s))
=============================================================================
