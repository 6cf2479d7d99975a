------------------------------- MODULE Grammar -------------------------------
(* The grammar of source files over the tokens of Lexer.tla, as a function from a text to its syntax tree.
   Every production is a function P(k, i): k the tokens, i the index of the next one -> [ok, i, c], c the children produced
   (leaves [t |-> type, i |-> token] and nodes [t |-> type, c |-> children]).
   Tree(case) is the sequence of "depth type@place" lines of the tree, or "rejected" if the text is not a source file. *)
EXTENDS Lexer, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)
VARIABLE n

T(k, i) == IF i > Len(k) THEN "Eof" ELSE k[i][1]
Fail == [ok |-> FALSE]
Leaf(k, i) == [t |-> k[i][1], c |-> <<>>, i |-> i]
LeafAs(t, i) == [t |-> t, c |-> <<>>, i |-> i]
Node(t, c) == [t |-> t, c |-> c, i |-> 0]
Done(i, c) == [ok |-> TRUE, i |-> i, c |-> c]
Wrap(t, r) == IF r.ok THEN Done(r.i, <<Node(t, r.c)>>) ELSE Fail

(* sequencing: r, then the token t / then production Q applied to the next index *)
Tok(k, i, t) == IF T(k, i) = t THEN Done(i + 1, <<Leaf(k, i)>>) ELSE Fail
Then(r, q) == IF r.ok /\ q.ok THEN Done(q.i, r.c \o q.c) ELSE Fail
ThenTok(k, r, t) == IF r.ok THEN Then(r, Tok(k, r.i, t)) ELSE Fail

Level(t) ==
    CASE t \in {"Equals", "PlusEquals", "MinusEquals", "StarEquals", "StarStarEquals", "SlashEquals", "PercentEquals"} -> 0
      [] t = "LogicalOr" -> 1
      [] t = "LogicalAnd" -> 2
      [] t = "QuestionQuestion" -> 3
      [] t = "BitwiseOr" -> 4
      [] t = "BitwiseXor" -> 5
      [] t = "BitwiseAnd" -> 6
      [] t \in {"EqualsEquals", "NotEquals"} -> 7
      [] t \in {"Less", "LessEquals", "Greater", "GreaterEquals"} -> 8
      [] t \in {"LeftShift", "RightShift"} -> 9
      [] t \in {"Plus", "Minus"} -> 10
      [] t \in {"Star", "Slash", "Percent"} -> 11
      [] t = "StarStar" -> 12
      [] t \in {"LeftParen", "LeftBracket", "Dot", "QuestionLeftParen", "QuestionLeftBracket", "QuestionDot"} -> 14
      [] OTHER -> -1
Unary == 13
RightAssoc(t) == Level(t) \in {0, 12}

Literals == {"KwTrue", "KwFalse", "KwNull", "Symbol", "Float", "Integer"}
UnaryOps == {"Plus", "Minus", "BitwiseNot", "LogicalNot"}
ExprFirst == Literals \cup UnaryOps \cup {"KwFunc", "KwContinue", "KwBreak", "KwReturn", "KwIf", "Identifier", "StringStart", "LeftParen", "LeftBracket", "LeftBrace"}
VarFirst == {"KwConst", "KwVar"}

RECURSIVE Expr(_, _, _, _), Infix(_, _, _, _), Primary(_, _, _), Items(_, _, _, _, _), Block(_, _), Stmts(_, _), IfExpr(_, _), StrParts(_, _), Strings(_, _),
          Bindings(_, _, _), Func(_, _, _), Fields(_, _), Entries(_, _)

(* comma separated productions up to the token `end`; a comma may follow the last one; what: "expr", "name" *)
Items(k, i, what, end, count) ==
    IF T(k, i) = end THEN [ok |-> TRUE, i |-> i + 1, c |-> <<Leaf(k, i)>>, n |-> count, comma |-> FALSE]
    ELSE LET x == IF what = "expr" THEN Expr(k, i, 0, FALSE) ELSE Tok(k, i, "Identifier") IN
         IF ~x.ok THEN Fail
         ELSE IF T(k, x.i) = end THEN [ok |-> TRUE, i |-> x.i + 1, c |-> Append(x.c, Leaf(k, x.i)), n |-> count + 1, comma |-> FALSE]
         ELSE IF T(k, x.i) # "Comma" THEN Fail
         ELSE LET y == Items(k, x.i + 1, what, end, count + 1)
              IN IF y.ok THEN [ok |-> TRUE, i |-> y.i, c |-> x.c \o <<Leaf(k, x.i)>> \o y.c, n |-> y.n, comma |-> TRUE] ELSE Fail
List(k, i, what, end) ==       \* with the opening token in front
    LET y == Items(k, i + 1, what, end, 0) IN IF y.ok THEN Done(y.i, <<Leaf(k, i)>> \o y.c) ELSE Fail

ArgList(k, i) == IF T(k, i) \in {"LeftParen", "QuestionLeftParen"} THEN Wrap("ArgList", List(k, i, "expr", "RightParen")) ELSE Fail
ParamList(k, i) == IF T(k, i) \in {"LeftParen", "QuestionLeftParen"} THEN Wrap("ParamList", List(k, i, "name", "RightParen")) ELSE Fail

(* --- expressions ------------------------------------------------------------------------------------------------ *)
Expr(k, i, level, noblock) ==
    LET x == IF T(k, i) \in UnaryOps
             THEN Wrap("UnaryExpr", LET r == Expr(k, i + 1, Unary, noblock) IN IF r.ok THEN Done(r.i, <<Leaf(k, i)>> \o r.c) ELSE Fail)
             ELSE Primary(k, i, noblock)
    IN IF x.ok THEN Infix(k, x, level, noblock) ELSE Fail

Infix(k, x, level, noblock) ==
    LET t == T(k, x.i)
        l == Level(t)
    IN IF l < level THEN x
       ELSE LET y == CASE t \in {"Dot", "QuestionDot"} ->
                              IF T(k, x.i + 1) = "Identifier" THEN Wrap("FieldExpr", Done(x.i + 2, x.c \o <<Leaf(k, x.i), Leaf(k, x.i + 1)>>))
                              ELSE IF T(k, x.i + 1) = "TupleField" THEN Wrap("TupleFieldExpr", Done(x.i + 2, x.c \o <<Leaf(k, x.i), Leaf(k, x.i + 1)>>))
                              ELSE Fail
                       [] t \in {"LeftBracket", "QuestionLeftBracket"} ->
                              LET r == Expr(k, x.i + 1, 0, FALSE)
                              IN IF r.ok THEN Wrap("IndexExpr", ThenTok(k, Done(r.i, x.c \o <<Leaf(k, x.i)>> \o r.c), "RightBracket")) ELSE Fail
                       [] t \in {"LeftParen", "QuestionLeftParen"} -> Wrap("CallExpr", Then(x, ArgList(k, x.i)))
                       [] OTHER ->
                              LET r == Expr(k, x.i + 1, IF RightAssoc(t) THEN l ELSE l + 1, noblock)
                              IN IF r.ok THEN Wrap("BinaryExpr", Done(r.i, x.c \o <<Leaf(k, x.i)>> \o r.c)) ELSE Fail
            IN IF y.ok THEN Infix(k, y, level, noblock) ELSE Fail

Paren(k, i) ==
    IF T(k, i + 1) = "RightParen" THEN Wrap("TupleExpr", Done(i + 2, <<Leaf(k, i), Leaf(k, i + 1)>>))
    ELSE IF T(k, i + 1) = "Colon" THEN Wrap("RecordExpr", ThenTok(k, Done(i + 2, <<Leaf(k, i), Leaf(k, i + 1)>>), "RightParen"))
    ELSE IF T(k, i + 1) = "Identifier" /\ T(k, i + 2) = "Colon" THEN
        LET y == Fields(k, i + 1) IN IF y.ok THEN Wrap("RecordExpr", Done(y.i, <<Leaf(k, i)>> \o y.c)) ELSE Fail
    ELSE LET y == Items(k, i + 1, "expr", "RightParen", 0)
         IN IF y.ok THEN Wrap(IF y.n = 1 /\ ~y.comma THEN "GroupedExpr" ELSE "TupleExpr", Done(y.i, <<Leaf(k, i)>> \o y.c)) ELSE Fail

Fields(k, i) ==     \* name : expr, ... )
    IF T(k, i) = "RightParen" THEN Done(i + 1, <<Leaf(k, i)>>)
    ELSE IF T(k, i) # "Identifier" \/ T(k, i + 1) # "Colon" THEN Fail
    ELSE LET r == Expr(k, i + 2, 0, FALSE) IN
         IF ~r.ok THEN Fail
         ELSE LET f == Done(r.i, <<Node("RecordItem", <<Node("Name", <<Leaf(k, i)>>), Leaf(k, i + 1)>> \o r.c)>>) IN
              IF T(k, r.i) = "RightParen" THEN ThenTok(k, f, "RightParen")
              ELSE LET g == ThenTok(k, f, "Comma") IN IF g.ok THEN Then(g, Fields(k, g.i)) ELSE Fail

Entries(k, i) ==    \* expr : expr, ... }
    IF T(k, i) = "RightBrace" THEN Done(i + 1, <<Leaf(k, i)>>)
    ELSE LET a == ThenTok(k, Expr(k, i, 0, FALSE), "Colon") IN
         IF ~a.ok THEN Fail
         ELSE LET f == Wrap("MapItem", Then(a, Expr(k, a.i, 0, FALSE))) IN
              IF ~f.ok THEN Fail
              ELSE IF T(k, f.i) = "RightBrace" THEN ThenTok(k, f, "RightBrace")
              ELSE LET g == ThenTok(k, f, "Comma") IN IF g.ok THEN Then(g, Entries(k, g.i)) ELSE Fail

Condition(k, i) == Wrap("Condition", Expr(k, i, 0, TRUE))

IfExpr(k, i) ==
    LET c == Condition(k, i + 1) IN
    IF ~c.ok THEN Fail
    ELSE LET b == Then(Done(c.i, <<Leaf(k, i)>> \o c.c), Block(k, c.i)) IN
         IF ~b.ok THEN Fail
         ELSE IF T(k, b.i) # "KwElse" THEN Wrap("IfExpr", b)
         ELSE LET e == Done(b.i + 1, Append(b.c, Leaf(k, b.i)))
              IN Wrap("IfExpr", Then(e, IF T(k, e.i) = "KwIf" THEN IfExpr(k, e.i) ELSE Block(k, e.i)))

StrParts(k, i) ==
    CASE T(k, i) = "StringEnd" -> Done(i + 1, <<Leaf(k, i)>>)
      [] T(k, i) = "StringContent" -> LET r == StrParts(k, i + 1) IN IF r.ok THEN Done(r.i, <<Leaf(k, i)>> \o r.c) ELSE Fail
      [] T(k, i) = "StringVar" ->
             IF T(k, i + 1) # "Identifier" THEN Fail
             ELSE LET r == StrParts(k, i + 2)
                  IN IF r.ok THEN Done(r.i, <<Node("StringFormatItem", <<Leaf(k, i), Node("VarExpr", <<Leaf(k, i + 1)>>)>>)>> \o r.c) ELSE Fail
      [] T(k, i) = "StringBlockStart" ->
             LET e == Expr(k, i + 1, 0, FALSE) IN
             IF ~e.ok THEN Fail
             ELSE LET b == Wrap("StringFormatBlock", ThenTok(k, Done(e.i, <<Leaf(k, i)>> \o e.c), "StringBlockEnd"))
                  IN IF b.ok THEN Then(b, StrParts(k, b.i)) ELSE Fail
      [] OTHER -> Fail
OneString(k, i) == LET r == StrParts(k, i + 1) IN IF r.ok THEN Wrap("StringExpr", Done(r.i, <<Leaf(k, i)>> \o r.c)) ELSE Fail
Strings(k, r) == IF r.ok /\ T(k, r.i) = "StringStart" THEN Strings(k, Then(r, OneString(k, r.i))) ELSE r
StringGroup(k, i) == LET r == Strings(k, OneString(k, i)) IN IF r.ok /\ Len(r.c) > 1 THEN Wrap("StringGroup", r) ELSE r

Primary(k, i, noblock) ==
    LET t == T(k, i) IN
    CASE t \in Literals -> Wrap("Literal", Tok(k, i, t))
      [] t = "LeftBrace" -> Block(k, i)
      [] t = "LeftParen" -> Paren(k, i)
      [] t = "KwIf" -> IfExpr(k, i)
      [] t = "KwReturn" -> Wrap("ReturnExpr", IF T(k, i + 1) \in ExprFirst THEN Then(Tok(k, i, t), Expr(k, i + 1, 0, FALSE)) ELSE Tok(k, i, t))
      [] t = "KwContinue" -> Wrap("ContinueExpr", Tok(k, i, t))
      [] t = "KwBreak" -> Wrap("BreakExpr", Tok(k, i, t))
      [] t = "Identifier" ->
             IF noblock \/ T(k, i + 1) # "LeftBrace" THEN Wrap("VarExpr", Tok(k, i, t))
             ELSE IF k[i][4] = "map" THEN
                  LET y == Entries(k, i + 2) IN IF y.ok THEN Wrap("MapExpr", Done(y.i, <<LeafAs("KwMap", i), Leaf(k, i + 1)>> \o y.c)) ELSE Fail
             ELSE IF k[i][4] = "set" THEN
                  LET y == Items(k, i + 2, "expr", "RightBrace", 0) IN IF y.ok THEN Wrap("SetExpr", Done(y.i, <<LeafAs("KwSet", i), Leaf(k, i + 1)>> \o y.c)) ELSE Fail
             ELSE Fail
      [] t = "KwFunc" -> LET f == Func(k, i, <<>>) IN Wrap("FuncExpr", f)
      [] t = "LeftBracket" -> Wrap("ArrayExpr", List(k, i, "expr", "RightBracket"))
      [] t = "StringStart" -> StringGroup(k, i)
      [] OTHER -> Fail

(* --- functions, bindings, statements --------------------------------------------------------------------------------- *)
Body(k, r) ==           \* = expression or a block
    IF ~r.ok THEN Fail
    ELSE IF T(k, r.i) = "Equals" /\ T(k, r.i + 1) # "LeftBrace" THEN Then(ThenTok(k, r, "Equals"), Expr(k, r.i + 1, 0, FALSE))
    ELSE LET q == IF T(k, r.i) = "Equals" THEN ThenTok(k, r, "Equals") ELSE r IN Then(q, Block(k, q.i))
Func(k, i, mods) ==
    LET a == Done(i + 1, Append(mods, Leaf(k, i)))
        b == IF T(k, a.i) = "Identifier" THEN Done(a.i + 1, Append(a.c, Node("Name", <<Leaf(k, a.i)>>))) ELSE a
    IN Wrap("Func", Body(k, Then(b, ParamList(k, b.i))))
ShortBody(k, i) ==      \* does the function at i have an expression as its body
    LET p == ParamList(k, IF T(k, i + 1) = "Identifier" THEN i + 2 ELSE i + 1) IN p.ok /\ T(k, p.i) = "Equals" /\ T(k, p.i + 1) # "LeftBrace"

Pattern(k, i) ==
    CASE T(k, i) = "LeftParen" -> Wrap("BindingTuple", List(k, i, "name", "RightParen"))
      [] T(k, i) = "Identifier" -> Wrap("BindingName", Tok(k, i, "Identifier"))
      [] OTHER -> Fail
Binding(k, i, noblock) ==
    LET p == Pattern(k, i) IN
    IF p.ok /\ T(k, p.i) = "Equals" THEN Wrap("Binding", Then(ThenTok(k, p, "Equals"), Expr(k, p.i + 1, 0, noblock))) ELSE Wrap("Binding", p)
Bindings(k, r, noblock) ==
    LET b == IF r.ok THEN Then(r, Binding(k, r.i, noblock)) ELSE Fail IN
    IF b.ok /\ T(k, b.i) = "Comma" THEN Bindings(k, ThenTok(k, b, "Comma"), noblock) ELSE b
Var(k, i, mods, noblock) == IF T(k, i) \in VarFirst THEN Wrap("Var", Bindings(k, Done(i + 1, Append(mods, Leaf(k, i))), noblock)) ELSE Fail

ForHead(k, i) ==        \* [declaration]; [condition]; [step]
    LET a == IF T(k, i) = "Semicolon" THEN Tok(k, i, "Semicolon") ELSE ThenTok(k, Var(k, i, <<>>, TRUE), "Semicolon") IN
    IF ~a.ok THEN Fail
    ELSE LET b == IF T(k, a.i) = "Semicolon" THEN ThenTok(k, a, "Semicolon") ELSE ThenTok(k, Then(a, Wrap("Condition", Expr(k, a.i, 0, FALSE))), "Semicolon") IN
         IF ~b.ok THEN Fail
         ELSE Wrap("ForStmtHeader", IF T(k, b.i) = "LeftBrace" THEN b ELSE Then(b, Expr(k, b.i, 0, TRUE)))
EachHead(k, i) ==
    LET p == ThenTok(k, Pattern(k, i), "KwIn") IN IF p.ok THEN Wrap("ForEachStmtHeader", Then(p, Expr(k, p.i, 0, TRUE))) ELSE Fail

Stmt(k, i) ==
    LET t == T(k, i)
        after(q) == IF q.ok THEN Done(q.i, <<Leaf(k, i)>> \o q.c) ELSE Fail
        body(q) == IF q.ok THEN Then(q, Block(k, q.i)) ELSE Fail
    IN CASE t = "KwDefer" -> Wrap("DeferStmt", ThenTok(k, after(Expr(k, i + 1, 0, FALSE)), "Semicolon"))
         [] t = "KwAssert" -> Wrap("AssertStmt", ThenTok(k, after(ArgList(k, i + 1)), "Semicolon"))
         [] t = "KwWhile" -> Wrap("WhileStmt", body(after(Condition(k, i + 1))))
         [] t = "KwFor" /\ (T(k, i + 1) = "Semicolon" \/ T(k, i + 1) \in VarFirst) -> Wrap("ForStmt", body(after(ForHead(k, i + 1))))
         [] t = "KwFor" -> IF T(k, i + 1) = "LeftParen" /\ T(k, i + 2) \in VarFirst THEN Fail ELSE Wrap("ForEachStmt", body(after(EachHead(k, i + 1))))
         [] t \in VarFirst -> Wrap("VarStmt", ThenTok(k, Var(k, i, <<>>, FALSE), "Semicolon"))
         [] OTHER ->
                LET e == Expr(k, i, 0, FALSE)
                IN IF ~e.ok THEN Fail
                   ELSE IF T(k, e.i) = "Semicolon" THEN Wrap("ExprStmt", ThenTok(k, e, "Semicolon"))
                   ELSE IF t \in {"KwFunc", "KwIf", "LeftBrace"} THEN Wrap("ExprStmt", e)      \* the semicolon is optional
                   ELSE Fail

Stmts(k, r) ==
    IF ~r.ok THEN Fail
    ELSE CASE T(k, r.i) = "RightBrace" -> ThenTok(k, r, "RightBrace")
           [] T(k, r.i) = "Eof" -> Fail
           [] T(k, r.i) = "Semicolon" -> Stmts(k, ThenTok(k, r, "Semicolon"))
           [] OTHER -> Stmts(k, Then(r, Stmt(k, r.i)))
Block(k, i) == IF T(k, i) = "LeftBrace" THEN Wrap("BlockExpr", Stmts(k, Tok(k, i, "LeftBrace"))) ELSE Fail

(* --- items of a file ----------------------------------------------------------------------------------------------------- *)
RECURSIVE Path(_, _), Mods(_, _), FileItems(_, _)
Path(k, r) ==           \* r ends with the previous dot
    LET a == ThenTok(k, r, "Identifier") IN IF a.ok /\ T(k, a.i) = "Dot" THEN Path(k, ThenTok(k, a, "Dot")) ELSE a
Import(k, i) ==
    LET p == Wrap("ImportPath", Path(k, Done(i + 1, <<>>))) IN
    IF ~p.ok THEN Fail
    ELSE LET a == Done(p.i, <<Leaf(k, i)>> \o p.c)
             b == IF T(k, a.i) = "KwAs" THEN ThenTok(k, ThenTok(k, a, "KwAs"), "Identifier") ELSE a
         IN Wrap("ImportItem", ThenTok(k, b, "Semicolon"))
Mods(k, i) == IF T(k, i) = "KwExport" THEN Mods(k, i + 1) ELSE i
Item(k, i) ==
    IF T(k, i) = "KwImport" THEN Import(k, i)
    ELSE LET j == Mods(k, i)
             m == IF j = i THEN <<>> ELSE <<Node("Modifiers", [x \in 1..(j - i) |-> Leaf(k, i + x - 1)])>>
         IN CASE T(k, j) \in VarFirst -> Wrap("VarItem", ThenTok(k, Var(k, j, m, FALSE), "Semicolon"))
              [] T(k, j) = "KwFunc" -> LET f == Func(k, j, m) IN Wrap("FuncItem", IF f.ok /\ ShortBody(k, j) THEN ThenTok(k, f, "Semicolon") ELSE f)
              [] OTHER -> Fail
FileItems(k, r) ==
    IF ~r.ok THEN Fail
    ELSE CASE T(k, r.i) = "Eof" -> r
           [] T(k, r.i) = "Semicolon" -> FileItems(k, ThenTok(k, r, "Semicolon"))
           [] OTHER -> FileItems(k, Then(r, Item(k, r.i)))
File(k) == FileItems(k, Done(1, <<>>))

(* --- the tree as text ------------------------------------------------------------------------------------------------------ *)
RECURSIVE First(_, _), End(_, _), Lines(_, _, _, _)
First(k, x) == IF x.i > 0 THEN k[x.i][2] ELSE First(k, x.c[1])
End(k, x) == IF x.i > 0 THEN k[x.i][3] ELSE End(k, x.c[Len(x.c)])
RECURSIVE Flat(_, _, _, _, _)
Lines(k, x, d, pl) ==
    <<ToString(d) \o " " \o x.t \o (IF x.i = 0 /\ x.c = <<>> THEN Range(pl, 1, 1) ELSE Range(pl, First(k, x), End(k, x)))>>
        \o Flat(k, x.c, 1, d + 1, pl)
Flat(k, c, j, d, pl) == IF j > Len(c) THEN <<>> ELSE Lines(k, c[j], d, pl) \o Flat(k, c, j + 1, d, pl)

(* `?(` behind assert or in front of parameters is not specified *)
Unspecified(k) == \E i \in 1..Len(k) : /\ k[i][1] = "QuestionLeftParen"
                                       /\ i > 1 /\ (k[i - 1][1] \in {"KwAssert", "KwFunc"} \/ (i > 2 /\ k[i - 1][1] = "Identifier" /\ k[i - 2][1] = "KwFunc"))

WithText(s, k) == [j \in 1..Len(k) |-> <<k[j][1], k[j][2], k[j][3], IF k[j][3] - k[j][2] = 3 THEN Word(s, k[j][2], k[j][3]) ELSE "">>]

(* --- cases: [id, mode, ...]; "bytes": b, rc, where: a text that may be no UTF-8; "tokens" and "tree": s (text), u (classes), rc, toks (leaves seen), errs (number of syntax errors), tree (lines seen), where (places of the messages) --- *)
TokenLine(pl, t) == t[1] \o Range(pl, t[2], t[3])
Verdict(x) ==
    LET k0 == Tokens(x.s, x.u)
        pl == Places(x.s)
        want == [j \in 1..Len(k0) |-> TokenLine(pl, k0[j])]
    IN IF x.rc \notin {"OK", "BAD_SOURCE"} THEN "rc " \o x.rc
       ELSE IF want # x.toks THEN "tokens, expected " \o ToString(want)
       ELSE IF \E w \in 1..Len(x.where) : ~\E p \in 1..Len(pl) : pl[p] = x.where[w] THEN "a message outside of the text"
       ELSE IF x.rc = "BAD_SOURCE" /\ Len(x.where) = 0 THEN "rejected without a message"
       ELSE LET k == WithText(x.s, k0)
                f == File(k)
            IN IF x.mode = "tokens" \/ Unspecified(k) THEN "ok"
               ELSE IF ~f.ok THEN (IF x.errs = 0 THEN "not in the grammar, but accepted" ELSE IF x.rc = "OK" THEN "syntax errors, but OK" ELSE "ok")
               ELSE IF x.errs > 0 THEN "in the grammar, but rejected"
               ELSE LET t == <<"0 Root" \o (IF f.c = <<>> THEN Range(pl, 1, 1) ELSE Range(pl, First(k, Node("", f.c)), End(k, Node("", f.c))))>>
                             \o Lines(k, Node("File", f.c), 1, pl)
                    IN IF t # x.tree THEN "tree, expected " \o ToString(t) ELSE "ok, parsed"

BytesVerdict(x) ==
    LET p == Prefix(x.b, 1, <<>>)
        pl == Places(p[1])
    IN IF p[2] > Len(x.b) THEN "ok"
       ELSE IF x.rc # "BAD_SOURCE" THEN "no UTF-8, but rc " \o x.rc
       ELSE IF \E w \in 1..Len(x.where) : x.where[w] = pl[Len(pl)] THEN "ok" ELSE "no message at the first invalid byte, " \o pl[Len(pl)]

Chains == 64
Init == n \in 1..Chains /\ n <= Len(Cases)
Next == n + Chains <= Len(Cases) /\ n' = n + Chains
Spec == Init /\ [][Next]_n
Checks == LET v == IF Cases[n].mode = "bytes" THEN BytesVerdict(Cases[n]) ELSE Verdict(Cases[n]) IN IF v = "ok" THEN TRUE ELSE IF v = "ok, parsed" THEN PrintT("YES|" \o Cases[n].id) ELSE PrintT("BAD|" \o Cases[n].id \o "|" \o v)
=============================================================================
