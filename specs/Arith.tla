------------------------------- MODULE Arith -------------------------------
(* 64 bit integers (C16): exact results or panics.  TLC's integers have 32 bits, so numbers are a sign and a magnitude *)
(* in base 256, least significant byte first, without leading zeros: <<sign, b0, b1, ...>> with sign 0 or 1.            *)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils, TLC
VARIABLE i

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)

-----------------------------------------------------------------------------
(* magnitudes: sequences of bytes *)
RECURSIVE Trim(_)
Trim(x) == IF x = <<>> \/ x[Len(x)] # 0 THEN x ELSE Trim(SubSeq(x, 1, Len(x) - 1))
At(x, k) == IF k <= Len(x) THEN x[k] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE CmpAt(_, _, _)
CmpAt(x, y, k) == IF k = 0 THEN 0 ELSE IF At(x, k) # At(y, k) THEN (IF At(x, k) > At(y, k) THEN 1 ELSE -1) ELSE CmpAt(x, y, k - 1)
MCmp(x, y) == CmpAt(x, y, Max2(Len(x), Len(y)))
RECURSIVE AddAt(_, _, _, _, _)
AddAt(x, y, k, c, acc) ==
    IF k > Max2(Len(x), Len(y)) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == At(x, k) + At(y, k) + c IN AddAt(x, y, k + 1, s \div 256, Append(acc, s % 256))
MAdd(x, y) == Trim(AddAt(x, y, 1, 0, <<>>))
RECURSIVE SubAt(_, _, _, _, _)
SubAt(x, y, k, c, acc) ==
    IF k > Len(x) THEN acc
    ELSE LET s == At(x, k) - At(y, k) - c IN IF s < 0 THEN SubAt(x, y, k + 1, 1, Append(acc, s + 256)) ELSE SubAt(x, y, k + 1, 0, Append(acc, s))
MSub(x, y) == Trim(SubAt(x, y, 1, 0, <<>>))      \* x >= y
(* schoolbook multiplication; columns sum to less than 2^31 *)
RECURSIVE Col(_, _, _, _)
Col(x, y, k, a) == IF a > k THEN 0 ELSE At(x, a) * At(y, k + 1 - a) + Col(x, y, k, a + 1)
RECURSIVE MulAt(_, _, _, _, _)
MulAt(x, y, k, c, acc) ==
    IF k > Len(x) + Len(y) THEN acc
    ELSE LET s == Col(x, y, k, 1) + c IN MulAt(x, y, k + 1, s \div 256, Append(acc, s % 256))
MMul(x, y) == Trim(MulAt(x, y, 1, 0, <<>>))

-----------------------------------------------------------------------------
(* numbers *)
Mag(n) == Tail(n)
Sign(n) == n[1]
Num(s, x) == <<IF x = <<>> THEN 0 ELSE s>> \o x
Zero == <<0>>
One == <<0, 1>>
MinusOne == <<1, 1>>
Neg(n) == Num(1 - Sign(n), Mag(n))
Add(a, b) == IF Sign(a) = Sign(b) THEN Num(Sign(a), MAdd(Mag(a), Mag(b)))
             ELSE IF MCmp(Mag(a), Mag(b)) >= 0 THEN Num(Sign(a), MSub(Mag(a), Mag(b)))
             ELSE Num(Sign(b), MSub(Mag(b), Mag(a)))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Num(IF Sign(a) = Sign(b) THEN 0 ELSE 1, MMul(Mag(a), Mag(b)))
Cmp(a, b) == IF Sign(a) # Sign(b) THEN (IF Sign(a) = 1 THEN -1 ELSE 1) ELSE (IF Sign(a) = 0 THEN 1 ELSE -1) * MCmp(Mag(a), Mag(b))
Half == <<0, 0, 0, 0, 0, 0, 0, 128>>            \* 2^63
Min == <<1>> \o Half
Fits(n) == IF Sign(n) = 0 THEN MCmp(Mag(n), Half) < 0 ELSE MCmp(Mag(n), Half) <= 0
Even(n) == At(Mag(n), 1) % 2 = 0
(* small magnitudes as TLC integers *)
Small(n) == Len(Mag(n)) <= 2
ToInt(n) == (IF Sign(n) = 1 THEN -1 ELSE 1) * (At(Mag(n), 1) + 256 * At(Mag(n), 2))

Panic == <<>>
Checked(n) == IF Fits(n) THEN n ELSE Panic

(* q, r: the claimed quotient and remainder; the division theorem determines them *)
DivOk(a, b, q, r) == /\ Add(Mul(q, b), r) = a
                     /\ MCmp(Mag(r), Mag(b)) < 0
                     /\ (r = Zero \/ Sign(r) = Sign(a))
DivDefined(a, b) == b # Zero /\ ~(a = Min /\ b = MinusOne)      \* the remainder is defined together with the quotient

RECURSIVE PowN(_, _, _)
PowN(a, e, acc) == IF e = 0 THEN acc
                   ELSE LET p == Mul(acc, a) IN IF ~Fits(p) THEN Panic ELSE PowN(a, e - 1, p)
Pow(a, b) ==
    IF Sign(b) = 1 THEN (IF a = Zero THEN Panic ELSE IF a = One THEN One ELSE IF a = MinusOne THEN (IF Even(b) THEN One ELSE MinusOne) ELSE Zero)
    ELSE IF b = Zero THEN One
    ELSE IF a \in {Zero, One} THEN a
    ELSE IF a = MinusOne THEN (IF Even(b) THEN One ELSE MinusOne)
    ELSE IF ~Small(b) \/ ToInt(b) > 63 THEN Panic
    ELSE PowN(a, ToInt(b), One)
    \* |a| >= 2: partial products grow, so the first one out of range decides

-----------------------------------------------------------------------------
(* two's complement: 8 bytes *)
Pad(x) == [k \in 1..8 |-> At(x, k)]
Bytes(n) == IF Sign(n) = 0 THEN Pad(Mag(n)) ELSE Pad(MSub(<<0, 0, 0, 0, 0, 0, 0, 0, 1>>, Mag(n)))
FromBytes(x) == IF x[8] < 128 THEN Num(0, Trim(x)) ELSE Num(1, MSub(<<0, 0, 0, 0, 0, 0, 0, 0, 1>>, Trim(x)))
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(x, k) == (x[(k \div 8) + 1] \div Pow2[(k % 8) + 1]) % 2         \* k in 0..63
OfBits(F(_)) == [j \in 1..8 |-> LET b == (j - 1) * 8 IN F(b) + 2 * F(b + 1) + 4 * F(b + 2) + 8 * F(b + 3) + 16 * F(b + 4) + 32 * F(b + 5) + 64 * F(b + 6) + 128 * F(b + 7)]
BitOp(op, a, b) ==
    LET x == Bytes(a)
        y == Bytes(b)
        F(k) == CASE op = "&" -> IF Bit(x, k) + Bit(y, k) = 2 THEN 1 ELSE 0
                  [] op = "|" -> IF Bit(x, k) + Bit(y, k) > 0 THEN 1 ELSE 0
                  [] op = "^" -> (Bit(x, k) + Bit(y, k)) % 2
    IN FromBytes(OfBits(F))
Shift(op, a, b) ==
    IF Sign(b) = 1 \/ ~Small(b) \/ ToInt(b) > 63 THEN Panic
    ELSE LET x == Bytes(a)
             s == ToInt(b)
             F(k) == IF op = "<<" THEN (IF k >= s THEN Bit(x, k - s) ELSE 0) ELSE (IF k + s <= 63 THEN Bit(x, k + s) ELSE 0)
         IN FromBytes(OfBits(F))
Truth(p) == IF p THEN One ELSE Zero

Ok(op, a, b, r) ==
    CASE op = "+" -> r = Checked(Add(a, b))
      [] op = "-" -> r = Checked(Sub(a, b))
      [] op = "*" -> r = Checked(Mul(a, b))
      [] op = "/" -> (IF DivDefined(a, b) THEN r # Panic /\ DivOk(a, b, r, Sub(a, Mul(r, b))) ELSE r = Panic)
      [] op = "%" -> (IF DivDefined(a, b) THEN r # Panic ELSE r = Panic)      \* the value is checked together with the quotient
      [] op = "**" -> r = Pow(a, b)
      [] op \in {"&", "|", "^"} -> r = BitOp(op, a, b)
      [] op \in {"<<", ">>"} -> r = Shift(op, a, b)
      [] op = "==" -> r = Truth(a = b)
      [] op = "!=" -> r = Truth(a # b)
      [] op = "<" -> r = Truth(Cmp(a, b) < 0)
      [] op = "<=" -> r = Truth(Cmp(a, b) <= 0)
      [] op = ">" -> r = Truth(Cmp(a, b) > 0)
      [] op = ">=" -> r = Truth(Cmp(a, b) >= 0)
      [] op = "u-" -> r = Checked(Neg(a))
      [] op = "u+" -> r = a
      [] op = "u~" -> r = Sub(Neg(a), One)
      [] op = "u!" -> r = Zero
      [] op = "id" -> r = a

(* a literal: base and digits, most significant first; the text form of a number: sign and decimal digits *)
RECURSIVE Digits(_, _, _)
Digits(base, ds, acc) == IF ds = <<>> THEN acc ELSE Digits(base, Tail(ds), MAdd(MMul(acc, Trim(<<base>>)), Trim(<<ds[1]>>)))
Literal(base, ds) == Checked(Num(0, Digits(base, ds, <<>>)))

Failed(c) ==
    CASE c.k = "ops" ->
            {j \in 1..Len(c.ops) : ~Ok(c.ops[j], c.a, c.b, c.r[j])}
            \cup {j \in 1..Len(c.ops) : c.ops[j] = "%" /\ c.r[j] # Panic
                     /\ \A q \in 1..Len(c.ops) : c.ops[q] = "/" => (c.r[q] = Panic \/ ~DivOk(c.a, c.b, c.r[q], c.r[j]))}
      [] c.k = "lit" -> IF c.r = Literal(c.base, c.ds) THEN {} ELSE {1}
      [] c.k = "text" -> IF c.a = Num(c.sign, Digits(10, c.ds, <<>>)) /\ (c.ds[1] # 0 \/ Len(c.ds) = 1) THEN {} ELSE {1}

(* chains of cases, so that the work is spread over the workers *)
Chains == 64
Init == i \in 1..Chains /\ i <= Len(Cases)
Next == i + Chains <= Len(Cases) /\ i' = i + Chains
Spec == Init /\ [][Next]_i
Report(c, f) == PrintT("BAD|" \o c.id \o "|" \o ToString(f))
Checks == LET f == Failed(Cases[i]) IN f = {} \/ Report(Cases[i], f)
=============================================================================
