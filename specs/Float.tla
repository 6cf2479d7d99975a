------------------------------- MODULE Float -------------------------------
(* C25: floating point numbers: IEEE 754 double precision, rounded to nearest, ties to even.  TLC has neither floating point      *)
(* numbers nor large integers: magnitudes are sequences of digits in base 4096, least significant first, without leading zeros.    *)
(* A number is [k |-> "n" finite | "inf" | "nan" | "i" integer, s |-> 1 if negative, m, e]: (-1)^s * m * 2^e.  A finite float has   *)
(* 2^52 <= m < 2^53 and -1074 <= e <= 971, or m < 2^52 and e = -1074.                                                              *)
(* A case is a list of operations with their operands and the result of the real machine: each is checked on its own.              *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

-----------------------------------------------------------------------------
(* magnitudes *)
Base == 4096
RECURSIVE Trim(_)
Trim(x) == IF x = <<>> \/ x[Len(x)] # 0 THEN x ELSE Trim(SubSeq(x, 1, Len(x) - 1))
D(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
Top(a, b) == IF a > b THEN a ELSE b
RECURSIVE CmpAt(_, _, _)
CmpAt(x, y, k) == IF k = 0 THEN 0 ELSE IF D(x, k) # D(y, k) THEN (IF D(x, k) > D(y, k) THEN 1 ELSE -1) ELSE CmpAt(x, y, k - 1)
MCmp(x, y) == IF Len(x) # Len(y) THEN (IF Len(x) > Len(y) THEN 1 ELSE -1) ELSE CmpAt(x, y, Len(x))
RECURSIVE AddAt(_, _, _, _, _)
AddAt(x, y, k, c, acc) ==
    IF k > Top(Len(x), Len(y)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == D(x, k) + D(y, k) + c IN AddAt(x, y, k + 1, s \div Base, Append(acc, s % Base))
MAdd(x, y) == AddAt(x, y, 1, 0, <<>>)
RECURSIVE SubAt(_, _, _, _, _)
SubAt(x, y, k, c, acc) ==
    IF k > Len(x) THEN acc
    ELSE LET s == D(x, k) - D(y, k) - c IN IF s < 0 THEN SubAt(x, y, k + 1, 1, Append(acc, s + Base)) ELSE SubAt(x, y, k + 1, 0, Append(acc, s))
MSub(x, y) == Trim(SubAt(x, y, 1, 0, <<>>))      \* x >= y
RECURSIVE ScaleAt(_, _, _, _, _)
ScaleAt(x, n, k, c, acc) == IF k > Len(x) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
                            ELSE LET s == x[k] * n + c IN ScaleAt(x, n, k + 1, s \div Base, Append(acc, s % Base))
Scale(x, n) == IF n = 0 THEN <<>> ELSE ScaleAt(x, n, 1, 0, <<>>)        \* n < Base
Zeros(n) == [j \in 1..n |-> 0]
RECURSIVE MulAt(_, _, _)
MulAt(x, y, k) == IF k > Len(y) THEN <<>> ELSE LET rest == MulAt(x, y, k + 1) IN MAdd(Scale(x, y[k]), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
MMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Trim(MulAt(x, y, 1))
Shl(x, n) == IF x = <<>> THEN <<>> ELSE Zeros(n \div 12) \o Scale(x, 2 ^ (n % 12))
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
BitLen(x) == IF x = <<>> THEN 0 ELSE 12 * (Len(x) - 1) + Bits(x[Len(x)])
(* the upper part of x without its last n bits, and those bits *)
Shr(x, n) == LET w == n \div 12  b == n % 12  y == SubSeq(x, w + 1, Len(x)) IN
             Trim([j \in DOMAIN y |-> (y[j] \div 2 ^ b) + (D(y, j + 1) % 2 ^ b) * 2 ^ (12 - b)])
Low(x, n) == LET w == n \div 12 IN Trim(SubSeq(x, 1, IF w < Len(x) THEN w ELSE Len(x)) \o (IF w < Len(x) THEN <<x[w + 1] % 2 ^ (n % 12)>> ELSE <<>>))
One == <<1>>
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN One ELSE LET h == Power(x, n \div 2) IN IF n % 2 = 0 THEN MMul(h, h) ELSE MMul(x, MMul(h, h))
(* x modulo y: subtracting y * 2^n, y * 2^(n-1), ... *)
RECURSIVE ModAt(_, _, _)
ModAt(x, y, n) == LET z == Shl(y, n)  r == IF MCmp(x, z) >= 0 THEN MSub(x, z) ELSE x IN IF n = 0 THEN r ELSE ModAt(r, y, n - 1)
Mod(x, y) == IF MCmp(x, y) < 0 THEN x ELSE ModAt(x, y, BitLen(x) - BitLen(y))

-----------------------------------------------------------------------------
(* dyadic magnitudes [m, e] *)
Align(a, e) == Shl(a.m, a.e - e)                  \* e <= a.e
QCmp(a, b) == IF a.m = <<>> \/ b.m = <<>> THEN MCmp(a.m, b.m)
              ELSE IF BitLen(a.m) + a.e # BitLen(b.m) + b.e THEN (IF BitLen(a.m) + a.e > BitLen(b.m) + b.e THEN 1 ELSE -1)
              ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e IN MCmp(Align(a, e), Align(b, e))
QMul(a, b) == [m |-> MMul(a.m, b.m), e |-> a.e + b.e]

Inf(s) == [k |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
NaN == [k |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
Fin(s, m, e) == [k |-> "n", s |-> s, m |-> m, e |-> e]
Zero(s) == Fin(s, <<>>, -1074)
Bit(n) == Shl(One, n)
(* the nearest float of (-1)^s * m * 2^e *)
Round(s, m, e) ==
    IF m = <<>> THEN Zero(s)
    ELSE LET want == BitLen(m) + e - 53
             f == IF want < -1074 THEN -1074 ELSE want IN
         IF f <= e THEN (IF f > 971 THEN Inf(s) ELSE Fin(s, Shl(m, e - f), f))
         ELSE LET n == f - e
                  q == Shr(m, n)
                  c == MCmp(Low(m, n), Bit(n - 1))
                  up == IF c > 0 \/ (c = 0 /\ q # <<>> /\ q[1] % 2 = 1) THEN MAdd(q, One) ELSE q
                  g == IF up = Bit(53) THEN Fin(s, Bit(52), f + 1) ELSE Fin(s, up, f) IN
              IF g.e > 971 THEN Inf(s) ELSE g
(* whether the float r is nearest to a positive exact value, given by its comparison with dyadic magnitudes *)
Nearest(r, Cmp(_)) ==
    CASE r.k = "inf" -> Cmp([m |-> MSub(Bit(54), One), e |-> 970]) >= 0
      [] r.k = "n" /\ r.m = <<>> -> Cmp([m |-> One, e |-> -1075]) <= 0
      [] r.k = "n" /\ r.m # <<>> ->
            LET even == r.m[1] % 2 = 0
                m2 == Shl(r.m, 1)
                lo == IF r.m = Bit(52) /\ r.e > -1074 THEN [m |-> MSub(Shl(r.m, 2), One), e |-> r.e - 2] ELSE [m |-> MSub(m2, One), e |-> r.e - 1]
                hi == [m |-> MAdd(m2, One), e |-> r.e - 1]
                a == Cmp(lo)  b == Cmp(hi) IN
            (a > 0 \/ (a = 0 /\ even)) /\ (b < 0 \/ (b = 0 /\ even))
      [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* operands: integers take part as the nearest float *)
Num(x) == [k |-> x[1], s |-> x[2], m |-> x[3], e |-> x[4]]
F(x) == IF x.k = "i" THEN Round(IF x.m = <<>> THEN 0 ELSE x.s, x.m, 0) ELSE x
IsZero(x) == x.k \in {"n", "i"} /\ x.m = <<>>
Xor(a, b) == IF a = b THEN 0 ELSE 1
Neg(x) == IF x.k = "nan" THEN x ELSE [x EXCEPT !.s = 1 - @]
Sum(a, b) ==
    CASE a.k = "nan" \/ b.k = "nan" -> NaN
      [] a.k = "inf" /\ b.k # "nan" -> IF b.k = "inf" /\ a.s # b.s THEN NaN ELSE a
      [] b.k = "inf" /\ a.k = "n" -> b
      [] OTHER -> LET e == IF a.e < b.e THEN a.e ELSE b.e  x == Align(a, e)  y == Align(b, e)  c == MCmp(x, y) IN
                  IF a.s = b.s THEN Round(a.s, MAdd(x, y), e)
                  ELSE IF c = 0 THEN Zero(0)
                  ELSE IF c > 0 THEN Round(a.s, MSub(x, y), e) ELSE Round(b.s, MSub(y, x), e)
Product(a, b) ==
    LET s == Xor(a.s, b.s) IN
    CASE a.k = "nan" \/ b.k = "nan" \/ (a.k = "inf" /\ IsZero(b)) \/ (b.k = "inf" /\ IsZero(a)) -> NaN
      [] (a.k = "inf" /\ b.k # "nan" /\ ~IsZero(b)) \/ (b.k = "inf" /\ a.k # "nan" /\ ~IsZero(a)) -> Inf(s)
      [] a.k = "n" /\ b.k = "n" -> Round(s, MMul(a.m, b.m), a.e + b.e)
IsQuotient(a, b, r) ==
    LET s == Xor(a.s, b.s) IN
    CASE a.k = "nan" \/ b.k = "nan" \/ (a.k = "inf" /\ b.k = "inf") \/ (IsZero(a) /\ IsZero(b)) -> r.k = "nan"
      [] a.k = "inf" /\ b.k = "n" -> r = Inf(s)
      [] a.k = "n" /\ b.k = "inf" -> r = Zero(s)
      [] IsZero(b) /\ a.k = "n" /\ ~IsZero(a) -> r = Inf(s)
      [] OTHER -> r.k # "nan" /\ r.s = s /\ IF IsZero(a) THEN IsZero(r) ELSE Nearest(r, LAMBDA t : QCmp(a, QMul(t, b)))
(* the remainder of a truncating division: sign of the dividend, exact *)
Remainder(a, b) ==
    CASE a.k = "nan" \/ b.k = "nan" \/ a.k = "inf" \/ IsZero(b) -> NaN
      [] a.k = "n" /\ b.k = "inf" -> a
      [] OTHER -> LET e == IF a.e < b.e THEN a.e ELSE b.e IN Round(a.s, Mod(Align(a, e), Align(b, e)), e)
(* integral powers: exact where they can be represented, otherwise one of the two neighbours of the exact value *)
IsPower(a, n, r) ==
    LET x == [m |-> Power(a.m, n), e |-> a.e * n]
        s == IF n % 2 = 1 THEN a.s ELSE 0
        w == Round(s, x.m, x.e) IN
    IF n = 0 THEN r = Fin(0, Bit(52), -52)
    ELSE IF a.k # "n" THEN TRUE
    ELSE r.k # "nan" /\ r.s = s /\
         IF w.k = "n" /\ QCmp(w, x) = 0 THEN r = w
         ELSE r = w \/ (w.k = "n" /\ r.k = "n" /\ LET d == IF r.e <= w.e THEN r.e ELSE w.e
                                                      p == Align(r, d)  q == Align(w, d) IN MCmp(IF MCmp(p, q) > 0 THEN MSub(p, q) ELSE MSub(q, p), Bit((IF r.e > w.e THEN r.e ELSE w.e) - d)) <= 0)
IsRoot(a, r) ==
    CASE a.k = "nan" \/ (a.s = 1 /\ ~IsZero(a)) -> r.k = "nan"
      [] IsZero(a) -> r = a
      [] a.k = "inf" /\ a.s = 0 -> r = a
      [] OTHER -> r.k = "n" /\ r.s = 0 /\ Nearest(r, LAMBDA t : QCmp(a, QMul(t, t)))
(* rounding to an integer: how: "floor", "ceil", "round" (halves away from zero) *)
Whole(a, how) ==
    IF a.k # "n" \/ a.e >= 0 \/ a.m = <<>> THEN a
    ELSE LET n == -a.e
             q == Shr(a.m, n)
             rest == Low(a.m, n)
             up == CASE how = "floor" -> a.s = 1 /\ rest # <<>> [] how = "ceil" -> a.s = 0 /\ rest # <<>> [] how = "round" -> MCmp(rest, Bit(n - 1)) >= 0 IN
         Round(a.s, IF up THEN MAdd(q, One) ELSE q, 0)
(* the exact order of two numbers, integers included: -1, 0, 1; 2 if one is not a number *)
Order(a, b) ==
    IF a.k = "nan" \/ b.k = "nan" THEN 2
    ELSE IF a.k = "inf" /\ b.k = "inf" THEN (IF a.s = b.s THEN 0 ELSE IF a.s = 1 THEN -1 ELSE 1)
    ELSE IF a.k = "inf" THEN (IF a.s = 1 THEN -1 ELSE 1)
    ELSE IF b.k = "inf" THEN (IF b.s = 1 THEN 1 ELSE -1)
    ELSE IF a.m = <<>> /\ b.m = <<>> THEN 0
    ELSE LET c == QCmp(a, b) IN
         IF a.m = <<>> THEN (IF b.s = 1 THEN 1 ELSE -1)
         ELSE IF b.m = <<>> THEN (IF a.s = 1 THEN -1 ELSE 1)
         ELSE IF a.s # b.s THEN (IF a.s = 1 THEN -1 ELSE 1)
         ELSE IF a.s = 1 THEN -c ELSE c
(* the float of a text: d digits (a magnitude), times base^n *)
IsText(d, base, n, r) ==
    IF d = <<>> THEN IsZero(r)
    ELSE IF n >= 0 THEN LET v == [m |-> MMul(d, Power(<<base>>, n)), e |-> 0] IN Nearest(r, LAMBDA t : QCmp(v, t))
    ELSE LET p == [m |-> Power(<<base>>, -n), e |-> 0] IN Nearest(r, LAMBDA t : QCmp([m |-> d, e |-> 0], QMul(t, p)))

-----------------------------------------------------------------------------
Exactly(r, w) == IF w.k = "nan" THEN r.k = "nan" ELSE r = w
(* o: operator, operands, result *)
Holds(o) ==
    LET a == Num(o[2])  b == Num(o[3])  r == Num(o[4])  cmp == Order(a, b) IN
    CASE o[1] = "+" -> Exactly(r, Sum(F(a), F(b)))
      [] o[1] = "-" -> Exactly(r, Sum(F(a), Neg(F(b))))
      [] o[1] = "*" -> Exactly(r, Product(F(a), F(b)))
      [] o[1] = "/" -> IsQuotient(F(a), F(b), r)
      [] o[1] = "%" -> Exactly(r, Remainder(F(a), F(b)))
      [] o[1] = "**" -> IsPower(F(a), o[5], r)
      [] o[1] = "neg" -> Exactly(r, Neg(F(a)))
      [] o[1] = "abs" -> Exactly(r, IF a.k = "nan" THEN a ELSE [F(a) EXCEPT !.s = 0])
      [] o[1] \in {"floor", "ceil", "round"} -> Exactly(r, Whole(F(a), o[1]))
      [] o[1] = "sqrt" -> IsRoot(F(a), r)
      [] o[1] = "id" -> Exactly(r, F(a))
      [] o[1] = "==" -> o[5] = (cmp = 0)
      [] o[1] = "!=" -> o[5] = (cmp # 0)
      [] o[1] = "<" -> o[5] = (cmp = -1)
      [] o[1] = ">" -> o[5] = (cmp = 1)
      [] o[1] = "<=" -> o[5] = (cmp \in {-1, 0})
      [] o[1] = ">=" -> o[5] = (cmp \in {0, 1})
      [] o[1] = "text" -> r.s = a.s /\ IsText(o[5][1], o[5][2], o[5][3], [r EXCEPT !.s = 0])
Failing(ops) == {j \in DOMAIN ops : ~Holds(ops[j])}
Checks == LET f == Failing(Cases[i].ops) IN f = {} \/ PrintT("BAD|" \o Cases[i].id \o "|operation " \o ToString(CHOOSE j \in f : \A x \in f : j <= x))
Init == i \in 1..(IF Len(Cases) < 64 THEN Len(Cases) ELSE 64)
Next == i + 64 <= Len(Cases) /\ i' = i + 64
Spec == Init /\ [][Next]_i
=============================================================================
