------------------------------- MODULE Lexer -------------------------------
(* The lexical structure of a source text: which tokens it consists of and where they stand.
   A text is a sequence of code points.  White space and comments (line comments, nested block comments) separate tokens;
   every token is the longest possible one; the inside of a string is divided into contents, `$name` and `${ ... }` parts,
   which contain tokens (and strings) again.  A token is <<type, begin, end>>, positions counted in code points from 1;
   a place is reported as "line:column".
   The classes of the code points beyond ASCII come with the case (taken from the Unicode character database). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Letters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>

(* classes: "start" (of identifiers), "cont" (other characters of identifiers), "digit", "white", "other" *)
Class(c, u) ==
    IF c < 0 THEN "end"
    ELSE IF c = 95 \/ c \in 65..90 \/ c \in 97..122 THEN "start"
    ELSE IF c \in 48..57 THEN "digit"
    ELSE IF c \in 9..13 \/ c = 32 THEN "white"
    ELSE IF c < 128 THEN "other"
    ELSE IF \E j \in 1..Len(u) : u[j][1] = c THEN u[CHOOSE j \in 1..Len(u) : u[j][1] = c][2]
    ELSE "other"
Starts(c, u) == Class(c, u) = "start"
Continues(c, u) == Class(c, u) \in {"start", "digit", "cont"}
Decimal(c) == c \in 48..57
Hex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102

At(s, p) == IF p > Len(s) THEN -1 ELSE s[p]
Newline == 10
Slash == 47
Star == 42
Quotes == {34, 39}
Dollar == 36
Backslash == 92
LBrace == 123
RBrace == 125
Underscore == 95

RECURSIVE NamePart(_, _, _)
NamePart(s, p, u) == IF Continues(At(s, p), u) THEN NamePart(s, p + 1, u) ELSE p
RECURSIVE DigitPart(_, _, _)
DigitPart(s, p, hex) ==
    LET c == At(s, p) IN IF c = Underscore \/ Decimal(c) \/ (hex /\ Hex(c)) THEN DigitPart(s, p + 1, hex) ELSE p
RECURSIVE FieldPart(_, _)
FieldPart(s, p) == IF Decimal(At(s, p)) THEN FieldPart(s, p + 1) ELSE p

(* the first position at or after p that is neither white space nor in a comment *)
RECURSIVE LineEnd(_, _)
LineEnd(s, p) == IF At(s, p) \in {-1, Newline} THEN p ELSE LineEnd(s, p + 1)
RECURSIVE BlockEnd(_, _, _)
BlockEnd(s, p, depth) ==
    IF p > Len(s) THEN p
    ELSE IF At(s, p) = Slash /\ At(s, p + 1) = Star THEN BlockEnd(s, p + 2, depth + 1)
    ELSE IF At(s, p) = Star /\ At(s, p + 1) = Slash THEN (IF depth = 1 THEN p + 2 ELSE BlockEnd(s, p + 2, depth - 1))
    ELSE BlockEnd(s, p + 1, depth)
RECURSIVE Skip(_, _, _)
Skip(s, p, u) ==
    IF Class(At(s, p), u) = "white" THEN Skip(s, p + 1, u)
    ELSE IF At(s, p) = Slash /\ At(s, p + 1) = Slash THEN Skip(s, LineEnd(s, p), u)
    ELSE IF At(s, p) = Slash /\ At(s, p + 1) = Star THEN Skip(s, BlockEnd(s, p, 0), u)
    ELSE p

(* --- names ------------------------------------------------------------------------------------------------ *)
RECURSIVE Word(_, _, _)
Word(s, p, q) == IF p >= q THEN "" ELSE (IF s[p] \in 97..122 THEN Letters[s[p] - 96] ELSE "?") \o Word(s, p + 1, q)
Keyword(w) ==
    CASE w = "as" -> "KwAs" [] w = "assert" -> "KwAssert" [] w = "break" -> "KwBreak" [] w = "catch" -> "KwCatch" [] w = "class" -> "KwClass"
      [] w = "const" -> "KwConst" [] w = "continue" -> "KwContinue" [] w = "defer" -> "KwDefer" [] w = "else" -> "KwElse"
      [] w = "export" -> "KwExport" [] w = "false" -> "KwFalse" [] w = "for" -> "KwFor" [] w = "func" -> "KwFunc" [] w = "if" -> "KwIf"
      [] w = "import" -> "KwImport" [] w = "in" -> "KwIn" [] w = "interface" -> "KwInterface" [] w = "is" -> "KwIs" [] w = "null" -> "KwNull"
      [] w = "package" -> "KwPackage" [] w = "protocol" -> "KwProtocol" [] w = "return" -> "KwReturn" [] w = "scope" -> "KwScope"
      [] w = "struct" -> "KwStruct" [] w = "switch" -> "KwSwitch" [] w = "throw" -> "KwThrow" [] w = "true" -> "KwTrue" [] w = "try" -> "KwTry"
      [] w = "var" -> "KwVar" [] w = "while" -> "KwWhile" [] w = "yield" -> "KwYield"
      [] OTHER -> "Identifier"
Name(s, p, u) ==
    LET q == NamePart(s, p, u)
    IN <<IF q - p > 9 THEN "Identifier" ELSE Keyword(Word(s, p, q)), p, q>>

(* --- numbers: 0b, 0o and 0x select a base, `_` may separate digits, a point makes a float --------------------- *)
Number(s, p) ==
    LET based == At(s, p) = 48 /\ At(s, p + 1) \in {98, 111, 120}
        hex == based /\ At(s, p + 1) = 120
        q == DigitPart(s, IF based THEN p + 2 ELSE p, hex)
    IN IF At(s, q) = 46 THEN <<"Float", p, DigitPart(s, q + 1, hex)>> ELSE <<"Integer", p, q>>

(* --- operators: the longest one -------------------------------------------------------------------------------- *)
Three == <<<<<<42, 42, 61>>, "StarStarEquals">>>>
Two == <<<<<<63, 46>>, "QuestionDot">>, <<<<63, 40>>, "QuestionLeftParen">>, <<<<63, 91>>, "QuestionLeftBracket">>, <<<<63, 63>>, "QuestionQuestion">>,
         <<<<43, 43>>, "PlusPlus">>, <<<<43, 61>>, "PlusEquals">>, <<<<45, 45>>, "MinusMinus">>, <<<<45, 61>>, "MinusEquals">>,
         <<<<42, 42>>, "StarStar">>, <<<<42, 61>>, "StarEquals">>, <<<<47, 61>>, "SlashEquals">>, <<<<37, 61>>, "PercentEquals">>,
         <<<<33, 61>>, "NotEquals">>, <<<<124, 124>>, "LogicalOr">>, <<<<38, 38>>, "LogicalAnd">>, <<<<61, 61>>, "EqualsEquals">>,
         <<<<60, 61>>, "LessEquals">>, <<<<60, 60>>, "LeftShift">>, <<<<62, 61>>, "GreaterEquals">>, <<<<62, 62>>, "RightShift">>>>
One == <<<<<<40>>, "LeftParen">>, <<<<41>>, "RightParen">>, <<<<91>>, "LeftBracket">>, <<<<93>>, "RightBracket">>, <<<<123>>, "LeftBrace">>,
         <<<<125>>, "RightBrace">>, <<<<46>>, "Dot">>, <<<<44>>, "Comma">>, <<<<58>>, "Colon">>, <<<<59>>, "Semicolon">>, <<<<63>>, "Question">>,
         <<<<43>>, "Plus">>, <<<<45>>, "Minus">>, <<<<42>>, "Star">>, <<<<47>>, "Slash">>, <<<<37>>, "Percent">>, <<<<126>>, "BitwiseNot">>,
         <<<<94>>, "BitwiseXor">>, <<<<33>>, "LogicalNot">>, <<<<124>>, "BitwiseOr">>, <<<<38>>, "BitwiseAnd">>, <<<<61>>, "Equals">>,
         <<<<60>>, "Less">>, <<<<62>>, "Greater">>>>
Find(table, w) == {j \in 1..Len(table) : table[j][1] = w}
Operator(s, p) ==
    LET w3 == <<At(s, p), At(s, p + 1), At(s, p + 2)>>
        w2 == <<At(s, p), At(s, p + 1)>>
        w1 == <<At(s, p)>>
        f3 == Find(Three, w3)
        f2 == Find(Two, w2)
        f1 == Find(One, w1)
    IN IF f3 # {} THEN <<Three[CHOOSE j \in f3 : TRUE][2], p, p + 3>>
       ELSE IF f2 # {} THEN <<Two[CHOOSE j \in f2 : TRUE][2], p, p + 2>>
       ELSE IF f1 # {} THEN <<One[CHOOSE j \in f1 : TRUE][2], p, p + 1>>
       ELSE <<"Unexpected", p, p + 1>>

(* --- the inside of strings ---------------------------------------------------------------------------------------- *)
RECURSIVE Content(_, _, _)
Content(s, p, d) ==
    IF At(s, p) \in {-1, d, Dollar} THEN p
    ELSE IF At(s, p) = Backslash THEN (IF p + 1 > Len(s) THEN p + 1 ELSE Content(s, p + 2, d))
    ELSE Content(s, p + 1, d)

(* where the next token is looked for: in code ("code", number of open braces) or in a string ("str", its delimiter, after a $) *)
Code(open) == [in |-> "code", open |-> open, d |-> 0, name |-> FALSE]
Str(d) == [in |-> "str", open |-> 0, d |-> d, name |-> FALSE]

(* one token from position p -> <<token, state, stack of the surrounding states>> *)
InCode(s, q, u, st, stack, last) ==
    LET c == At(s, q) IN
    IF c \in Quotes THEN <<<<"StringStart", q, q + 1>>, Str(c), Append(stack, st)>>
    ELSE IF Decimal(c) THEN <<IF last \in {"Dot", "QuestionDot"} THEN <<"TupleField", q, FieldPart(s, q)>> ELSE Number(s, q), st, stack>>
    ELSE IF c = 35 THEN <<<<"Symbol", q, NamePart(s, q + 1, u)>>, st, stack>>
    ELSE IF Starts(c, u) THEN <<Name(s, q, u), st, stack>>
    ELSE IF c = LBrace THEN <<<<"LeftBrace", q, q + 1>>, Code(st.open + 1), stack>>
    ELSE IF c = RBrace THEN
        IF st.open = 0 /\ Len(stack) > 0 THEN <<<<"StringBlockEnd", q, q + 1>>, stack[Len(stack)], SubSeq(stack, 1, Len(stack) - 1)>>
        ELSE <<<<"RightBrace", q, q + 1>>, Code(IF st.open > 0 THEN st.open - 1 ELSE 0), stack>>
    ELSE <<Operator(s, q), st, stack>>

InStr(s, p, u, st, stack) ==
    LET c == At(s, p) IN
    IF c = st.d THEN <<<<"StringEnd", p, p + 1>>, stack[Len(stack)], SubSeq(stack, 1, Len(stack) - 1)>>
    ELSE IF st.name /\ Starts(c, u) THEN <<Name(s, p, u), Str(st.d), stack>>
    ELSE IF c = Dollar /\ At(s, p + 1) = LBrace THEN <<<<"StringBlockStart", p, p + 2>>, Code(0), Append(stack, Str(st.d))>>
    ELSE IF c = Dollar THEN <<<<"StringVar", p, p + 1>>, [Str(st.d) EXCEPT !.name = TRUE], stack>>
    ELSE <<<<"StringContent", p, Content(s, p, st.d)>>, Str(st.d), stack>>

RECURSIVE Lex(_, _, _, _, _, _, _)
Lex(s, p, u, st, stack, last, acc) ==
    LET q == IF st.in = "code" THEN Skip(s, p, u) ELSE p IN
    IF q > Len(s) THEN acc
    ELSE LET x == IF st.in = "code" THEN InCode(s, q, u, st, stack, last) ELSE InStr(s, q, u, st, stack)
         IN Lex(s, x[1][3], u, x[2], x[3], x[1][1], Append(acc, x[1]))
Tokens(s, u) == Lex(s, 1, u, Code(0), <<>>, "", <<>>)

(* --- places ------------------------------------------------------------------------------------------------------------ *)
RECURSIVE PlacesFrom(_, _, _, _, _)
PlacesFrom(s, p, l, c, acc) ==
    IF p > Len(s) THEN Append(acc, ToString(l) \o ":" \o ToString(c))
    ELSE PlacesFrom(s, p + 1, IF s[p] = Newline THEN l + 1 ELSE l, IF s[p] = Newline THEN 1 ELSE c + 1, Append(acc, ToString(l) \o ":" \o ToString(c)))
Places(s) == PlacesFrom(s, 1, 1, 1, <<>>)
Range(pl, b, e) == "@" \o (IF b = e THEN pl[b] ELSE pl[b] \o ".." \o pl[e])

(* --- bytes: the code points of the longest valid prefix in UTF-8 ------------------------------------------------------------ *)
Byte(b, p) == IF p > Len(b) THEN 0 ELSE b[p]
Tail6(b, p) == Byte(b, p) \in 128..191
Size(b, p) ==        \* bytes of the sequence at p, 0 if there is no valid one
    LET x == b[p]
        y == Byte(b, p + 1)
    IN CASE x < 128 -> 1
         [] x \in 194..223 -> IF Tail6(b, p + 1) THEN 2 ELSE 0
         [] x \in 224..239 -> IF /\ Tail6(b, p + 1) /\ Tail6(b, p + 2)
                                 /\ (x = 224 => y >= 160)              \* no longer than necessary
                                 /\ (x = 237 => y < 160)               \* no surrogates
                              THEN 3 ELSE 0
         [] x \in 240..244 -> IF Tail6(b, p + 1) /\ Tail6(b, p + 2) /\ Tail6(b, p + 3) /\ (x = 240 => y >= 144) /\ (x = 244 => y < 144) THEN 4 ELSE 0
         [] OTHER -> 0
Value(b, p) ==
    CASE Size(b, p) = 1 -> b[p]
      [] Size(b, p) = 2 -> (b[p] - 192) * 64 + (b[p + 1] - 128)
      [] Size(b, p) = 3 -> (b[p] - 224) * 4096 + (b[p + 1] - 128) * 64 + (b[p + 2] - 128)
      [] OTHER -> (b[p] - 240) * 262144 + (b[p + 1] - 128) * 4096 + (b[p + 2] - 128) * 64 + (b[p + 3] - 128)
RECURSIVE Prefix(_, _, _)
Prefix(b, p, acc) == IF p > Len(b) \/ Size(b, p) = 0 THEN <<acc, p>> ELSE Prefix(b, p + Size(b, p), Append(acc, Value(b, p)))
=============================================================================
