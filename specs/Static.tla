------------------------------- MODULE Static -------------------------------
(* The static rules of the language, decided on the syntax tree: scopes and names, constants and assignment targets,
   placement of break, continue and return, where values are required, and initialisation before use (a data flow over
   all paths, with deferred expressions at every exit of their scope and at every point that can panic).
   A case holds the flattened tree of a module (files: imports and items) and what the real compiler said
   ("accepted" or "rejected"; anything else is never right). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
Cases == TLCGet(1)
VARIABLE i

Range(s) == {s[k] : k \in DOMAIN s}

(* ---------------------------------------------------------------- initialised variables: a set, or "not reachable" *)
Dead == [u |-> TRUE, s |-> {}]
Join(a, b) == IF a.u THEN b ELSE IF b.u THEN a ELSE [u |-> FALSE, s |-> a.s \cap b.s]
Init1(d, id) == IF d.u THEN d ELSE [d EXCEPT !.s = @ \cup {id}]

(* result of walking over a node: ok: rules of names and structure; da: initialised before use; refs: captured variables;
   d: after the node; b, c: at break and continue of the enclosing loop *)
Res(ok, da, refs, d, b, c) == [ok |-> ok, da |-> da, refs |-> refs, d |-> d, b |-> b, c |-> c]
Id(d) == Res(TRUE, TRUE, {}, d, Dead, Dead)
Bad(d) == Res(FALSE, TRUE, {}, d, Dead, Dead)
Then(r1, r2) == Res(r1.ok /\ r2.ok, r1.da /\ r2.da, r1.refs \cup r2.refs, r2.d, Join(r1.b, r2.b), Join(r1.c, r2.c))
Also(r, p) == [r EXCEPT !.ok = @ /\ p]

(* ---------------------------------------------------------------- declarations of a statement and scopes *)
RECURSIVE Decls(_, _)
Decls(N, n) ==
    LET x == N[n] IN
    CASE x.o \in {"decl", "dect"} -> [k \in 1..Len(x.s) |-> [n |-> x.s[k], id |-> <<n, k>>, k |-> IF x.i = 1 THEN "const" ELSE "var"]]
      [] x.o = "fdecl" -> <<[n |-> x.s[1], id |-> <<n, 1>>, k |-> "func"]>>
      [] x.o = "multi" -> LET F[k \in 0..Len(x.c)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o Decls(N, x.c[k]) IN F[Len(x.c)]
      [] OTHER -> <<>>
AllDecls(N, list) == LET F[k \in 0..Len(list)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o Decls(N, list[k]) IN F[Len(list)]
NoDup(ds) == \A a, b \in DOMAIN ds : a # b => ds[a].n # ds[b].n
Scope(ds, fd, static) == [ds |-> Range(ds), fd |-> fd, static |-> static]
Names(sc) == {x.n : x \in sc.ds}
Ids(ds) == {x.id : x \in Range(ds)}

(* innermost scope that declares the name *)
Find(e, name) ==
    LET S == {k \in 1..Len(e.sc) : name \in Names(e.sc[k])}
    IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Sym(e, k, name) == CHOOSE x \in e.sc[k].ds : x.n = name

Push(e, sc) == [e EXCEPT !.sc = Append(@, sc)]
Activate(e, ids) == [e EXCEPT !.act = @ \cup ids]

(* ---------------------------------------------------------------- where values are required *)
(* a local function is an expression whose value is the function *)
StmtKinds == {"decl", "dect", "multi", "defer", "assert", "while", "for", "each"}
RECURSIVE Type(_, _)
Type(N, n) ==
    LET x == N[n] IN
    CASE x.o \in {"ret", "brk", "cont"} -> "never"
      [] x.o \in StmtKinds -> "none"
      [] x.o = "blk" -> IF x.c = <<>> THEN "none" ELSE Type(N, x.c[Len(x.c)])
      [] x.o = "if" ->
            IF Len(x.c) < 3 THEN "none"
            ELSE LET a == Type(N, x.c[2])
                     b == Type(N, x.c[3])
                 IN IF a = "none" \/ b = "none" THEN "none" ELSE IF a = "value" \/ b = "value" THEN "value" ELSE "never"
      [] OTHER -> "value"

RECURSIVE Values(_, _, _)
Values(N, n, req) ==
    IF n = 0 THEN TRUE
    ELSE LET x == N[n]
             all(r) == \A k \in DOMAIN x.c : Values(N, x.c[k], r)
         IN
         CASE x.o = "blk" ->
                /\ \A k \in DOMAIN x.c : Values(N, x.c[k], req /\ k = Len(x.c))
                /\ req => Type(N, n) # "none"
           [] x.o = "if" ->
                /\ Values(N, x.c[1], TRUE)
                /\ \A k \in 2..Len(x.c) : Values(N, x.c[k], req)
                /\ req => Len(x.c) = 3
           [] x.o = "fn" -> Values(N, x.c[1], x.i = 1)
           [] x.o = "defer" -> all(FALSE)
           [] x.o \in {"while", "each"} -> Values(N, x.c[1], TRUE) /\ Values(N, x.c[2], FALSE)
           [] x.o = "for" -> Values(N, x.c[1], FALSE) /\ Values(N, x.c[2], TRUE) /\ Values(N, x.c[3], FALSE) /\ Values(N, x.c[4], FALSE)
           [] OTHER -> all(TRUE)

(* ---------------------------------------------------------------- assignment targets *)
Opt(x) == (x.o \in {"mem", "tf", "idx", "call"} /\ x.i2 # 0) \/ (x.o = "mcall" /\ x.i2 # 0)
RECURSIVE PathOk(_, _)
PathOk(N, n) ==
    LET x == N[n] IN
    CASE x.o \in {"mem", "tf", "idx", "call", "mcall"} -> ~Opt(x) /\ PathOk(N, x.c[1])
      [] x.o = "chain" -> PathOk(N, x.c[1])
      [] OTHER -> TRUE
RECURSIVE TargetOk(_, _, _, _)
TargetOk(N, n, e, tuple) ==
    LET x == N[n] IN
    CASE x.o = "var" -> LET k == Find(e, x.n) IN k # 0 /\ Sym(e, k, x.n).k \in {"var", "param"}
      [] x.o \in {"mem", "tf", "idx", "chain"} -> (x.o = "chain" => N[x.c[1]].o \in {"mem", "tf", "idx"}) /\ PathOk(N, n)
      [] x.o = "tup" -> tuple /\ \A k \in DOMAIN x.c : TargetOk(N, x.c[k], e, FALSE)
      [] OTHER -> FALSE

Distinct(s) == \A a, b \in DOMAIN s : a # b => s[a] # s[b]

(* ---------------------------------------------------------------- the walk *)
(* e: sc scopes, act active declarations, fd function depth, infn, loop, flow (second pass), cap captured variables,
   defers registered and still pending, ll number of defers outside of the innermost loop *)
RECURSIVE W(_, _, _, _)
RECURSIVE WSeq(_, _, _, _)
RECURSIVE WBlock(_, _, _, _, _)
RECURSIVE Deferred(_, _, _, _)
RECURSIVE WPath(_, _, _, _)
RECURSIVE WTargets(_, _, _, _)

WSeq(N, list, e, d) ==
    IF list = <<>> THEN Id(d)
    ELSE LET r == W(N, Head(list), e, d) IN Then(r, WSeq(N, Tail(list), e, r.d))

(* pending deferred expressions above `low`, last one first *)
Deferred(N, defers, low, d) ==
    IF Len(defers) <= low THEN Id(d)
    ELSE LET x == defers[Len(defers)]
             r == W(N, x.n, x.e, d)
         IN Then(r, Deferred(N, SubSeq(defers, 1, Len(defers) - 1), low, r.d))

(* statements of a block from k on *)
WBlock(N, list, k, e, d) ==
    IF k > Len(list) THEN Id(d)
    ELSE LET n == list[k]
             x == N[n]
             r == W(N, n, e, d)
             e2 == Activate(e, Ids(Decls(N, n)))
         IN IF x.o = "defer" /\ ~(e.flow /\ d.u) THEN
                LET e3 == [e2 EXCEPT !.defers = Append(@, [n |-> x.c[1], e |-> e])]
                    q == WBlock(N, list, k + 1, e3, r.d)
                IN Then(Then(r, q), Deferred(N, e3.defers, Len(e.defers), q.d))
            ELSE Then(r, WBlock(N, list, k + 1, e2, r.d))

(* a read of a variable *)
Read(e, name, d) ==
    LET k == Find(e, name) IN
    IF k = 0 THEN Bad(d)
    ELSE LET s == Sym(e, k, name)
             sc == e.sc[k]
             cap == ~sc.static /\ e.fd > sc.fd
         IN IF s.id \notin e.act THEN Bad(d)
            ELSE Res(TRUE, sc.static \/ cap \/ s.id \in e.cap \/ d.u \/ s.id \in d.s, IF cap THEN {s.id} ELSE {}, d, Dead, Dead)
(* the reference of an assignment: resolved, but not read *)
Ref(e, name, d) == [Read(e, name, d) EXCEPT !.da = TRUE]
Assigned(e, name, d) ==
    LET k == Find(e, name) IN IF k = 0 THEN d ELSE Init1(d, Sym(e, k, name).id)

(* paths: the elements behind an optional access are skipped together; o: state at the first optional access *)
WPath(N, n, e, d) ==
    LET x == N[n] IN
    IF x.o \in {"mem", "tf", "idx", "call", "mcall"} THEN
        LET p == WPath(N, x.c[1], e, d)
            q == WSeq(N, Tail(x.c), e, p.r.d)
            o == IF p.o.u /\ Opt(x) THEN p.r.d ELSE p.o
        IN [r |-> Then(p.r, q), o |-> o]
    ELSE [r |-> W(N, n, e, d), o |-> Dead]

(* operands of assignment targets *)
WTargets(N, list, e, d) ==
    IF list = <<>> THEN Id(d)
    ELSE LET x == N[Head(list)]
             r == CASE x.o = "var" -> Ref(e, x.n, d)
                    [] x.o = "tup" -> WTargets(N, x.c, e, d)
                    [] OTHER -> W(N, Head(list), e, d)
         IN Then(r, WTargets(N, Tail(list), e, r.d))
RECURSIVE AssignAll(_, _, _, _)
AssignAll(N, list, e, d) ==
    IF list = <<>> THEN d
    ELSE LET x == N[Head(list)]
             d2 == CASE x.o = "var" -> Assigned(e, x.n, d) [] x.o = "tup" -> AssignAll(N, x.c, e, d) [] OTHER -> d
         IN AssignAll(N, Tail(list), e, d2)

Func(N, n, e, d) ==
    LET x == N[n]
        ps == [k \in 1..Len(x.s) |-> [n |-> x.s[k], id |-> <<n, k>>, k |-> "param"]]
        e2 == [Activate(Push(e, Scope(ps, e.fd + 1, FALSE)), Ids(ps)) EXCEPT !.fd = @ + 1, !.infn = TRUE, !.loop = FALSE, !.defers = <<>>, !.ll = 0]
        r == W(N, x.c[1], e2, [u |-> FALSE, s |-> Ids(ps)])
    IN Res(r.ok /\ NoDup(ps), r.da, r.refs, d, Dead, Dead)

Loop(e) == [e EXCEPT !.loop = TRUE, !.ll = Len(e.defers)]

W(N, n, e, d) ==
    IF n = 0 \/ (e.flow /\ d.u) THEN Id(d)
    ELSE LET x == N[n] IN
    CASE x.o \in {"int", "str", "null", "bool", "flt", "sym"} -> Id(d)
      [] x.o = "var" -> Read(e, x.n, d)
      [] x.o = "rec" -> Also(WSeq(N, x.c, e, d), Distinct(x.s))
      [] x.o \in {"and", "or", "coal"} ->
            LET a == W(N, x.c[1], e, d)
                b == W(N, x.c[2], e, a.d)
            IN [Then(a, b) EXCEPT !.d = Join(a.d, b.d)]
      [] x.o = "chain" -> LET p == WPath(N, x.c[1], e, d) IN [p.r EXCEPT !.d = Join(p.r.d, p.o)]
      [] x.o = "if" ->
            LET a == W(N, x.c[1], e, d)
                t == W(N, x.c[2], e, a.d)
                f == IF Len(x.c) = 3 THEN W(N, x.c[3], e, a.d) ELSE Id(a.d)
            IN [Then(Then(a, t), f) EXCEPT !.d = Join(t.d, f.d)]
      [] x.o = "blk" ->
            LET ds == AllDecls(N, x.c)
                e2 == Push(e, Scope(ds, e.fd, FALSE))
            IN Also(WBlock(N, x.c, 1, e2, d), NoDup(ds))
      [] x.o = "fn" -> Func(N, n, e, d)
      [] x.o = "fdecl" ->
            LET r == Func(N, x.c[1], Activate(e, {<<n, 1>>}), d) IN Also([r EXCEPT !.d = Init1(@, <<n, 1>>)], x.x # "export")
      [] x.o \in {"decl", "dect"} ->
            LET r == WSeq(N, x.c, e, d)
                r2 == IF x.c = <<>> THEN r ELSE [r EXCEPT !.d = IF @.u THEN @ ELSE [@ EXCEPT !.s = @ \cup {<<n, k>> : k \in 1..Len(x.s)}]]
            IN Also(r2, (x.i = 1 => x.c # <<>>) /\ x.x # "export")
      [] x.o = "multi" ->
            LET F[k \in 0..Len(x.c)] ==
                    IF k = 0 THEN [r |-> Id(d), e |-> e]
                    ELSE LET p == F[k - 1]
                             r == W(N, x.c[k], p.e, p.r.d)
                         IN [r |-> Then(p.r, r), e |-> Activate(p.e, Ids(Decls(N, x.c[k])))]
            IN F[Len(x.c)].r
      [] x.o = "defer" -> [W(N, x.c[1], e, d) EXCEPT !.d = d, !.b = Dead, !.c = Dead]
      [] x.o = "assert" -> Also([WSeq(N, x.c, e, d) EXCEPT !.d = IF x.c = <<>> THEN d ELSE W(N, x.c[1], e, d).d], Len(x.c) \in {1, 2})
      [] x.o = "while" ->
            LET a == W(N, x.c[1], e, d)
                b == W(N, x.c[2], Loop(e), a.d)
            IN [Then(a, b) EXCEPT !.d = Join(a.d, b.b), !.b = a.b, !.c = a.c]
      [] x.o = "for" ->
            LET ds == IF x.c[1] = 0 THEN <<>> ELSE Decls(N, x.c[1])
                e1 == Push(e, Scope(ds, e.fd, FALSE))
                e2 == Activate(e1, Ids(ds))
                r1 == W(N, x.c[1], e1, d)
                r2 == W(N, x.c[2], e2, r1.d)
                b == W(N, x.c[4], Loop(e2), r2.d)
                st == W(N, x.c[3], e2, Join(b.d, b.c))
                out == IF x.c[2] = 0 THEN b.b ELSE Join(r2.d, b.b)
                r == Then(Then(Then(r1, r2), b), st)
            IN Also([r EXCEPT !.d = out, !.b = Join(Join(r1.b, r2.b), st.b), !.c = Join(Join(r1.c, r2.c), st.c)], NoDup(ds))
      [] x.o = "each" ->
            LET ds == [k \in 1..Len(x.s) |-> [n |-> x.s[k], id |-> <<n, k>>, k |-> "const"]]
                a == W(N, x.c[1], e, d)
                e2 == Activate(Push(Loop(e), Scope(ds, e.fd, FALSE)), Ids(ds))
                b == W(N, x.c[2], e2, IF a.d.u THEN a.d ELSE [a.d EXCEPT !.s = @ \cup Ids(ds)])
            IN Also([Then(a, b) EXCEPT !.d = Join(a.d, b.b), !.b = a.b, !.c = a.c], NoDup(ds))
      [] x.o = "ret" ->
            LET a == WSeq(N, x.c, e, d)
                f == Deferred(N, e.defers, 0, a.d)
            IN Also([Then(a, f) EXCEPT !.d = Dead], e.infn)
      [] x.o \in {"brk", "cont"} ->
            LET f == Deferred(N, e.defers, e.ll, d)
                r == [f EXCEPT !.d = Dead, !.b = IF x.o = "brk" THEN Join(@, f.d) ELSE @, !.c = IF x.o = "cont" THEN Join(@, f.d) ELSE @]
            IN Also(r, e.loop)
      [] x.o = "xasg" ->
            LET t == N[x.c[1]]
                compound == x.n # "="
                a == IF t.o = "var" /\ compound THEN Read(e, t.n, d) ELSE WTargets(N, <<x.c[1]>>, e, d)
                b == W(N, x.c[2], e, a.d)
                r == Then(a, b)
            IN Also([r EXCEPT !.d = AssignAll(N, <<x.c[1]>>, e, @)], TargetOk(N, x.c[1], e, ~compound))
      [] OTHER -> WSeq(N, x.c, e, d)

(* ---------------------------------------------------------------- modules *)
ItemOk(N, n) ==
    LET x == N[n] IN
    /\ x.o \in {"decl", "dect", "multi", "fdecl"}
    /\ x.x = "export" => (x.o \in {"decl", "dect", "multi"} => x.i = 1)

(* a module level item; export has been judged by ItemOk *)
WItem(N, n, e) == W([N EXCEPT ![n].x = ""], n, e, [u |-> FALSE, s |-> {}])
(* number of items in the first g files *)
RECURSIVE Upto(_, _)
Upto(P, g) == IF g = 0 THEN 0 ELSE Upto(P, g - 1) + Len(P.files[g].items)

Module(P, flow, cap) ==
    LET N == P.nodes
        Items == LET F[k \in 0..Len(P.files)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o P.files[k].items IN F[Len(P.files)]
        mds == AllDecls(N, Items)
        funcs == {x.id : x \in {y \in Range(mds) : y.k = "func"}}
        e0 == [sc |-> <<Scope(mds, 0, TRUE)>>, act |-> funcs, fd |-> 0, infn |-> FALSE, loop |-> FALSE, flow |-> flow, cap |-> cap, defers |-> <<>>, ll |-> 0]
        imps(f) == [k \in 1..Len(P.files[f].imports) |-> [n |-> P.files[f].imports[k], id |-> <<0, f, k>>, k |-> "import"]]
        W1[k \in 0..Len(Items)] ==
            IF k = 0 THEN [r |-> Id([u |-> FALSE, s |-> {}]), act |-> funcs]
            ELSE LET prev == W1[k - 1]
                     f == CHOOSE g \in 1..Len(P.files) : k <= Upto(P, g) /\ k > Upto(P, g - 1)
                     is == imps(f)
                     e == [e0 EXCEPT !.sc = Append(@, Scope(is, 0, TRUE)), !.act = prev.act \cup Ids(is)]
                     r == WItem(N, Items[k], e)
                 IN [r |-> Then(prev.r, [r EXCEPT !.d = [u |-> FALSE, s |-> {}]]), act |-> prev.act \cup Ids(Decls(N, Items[k]))]
        total == W1[Len(Items)].r
    IN [total EXCEPT !.ok = @ /\ NoDup(mds) /\ \A f \in 1..Len(P.files) : NoDup(imps(f))]

Accepted(P) ==
    LET N == P.nodes
        items == UNION {Range(P.files[f].items) : f \in 1..Len(P.files)}
    IN IF ~(\A n \in items : ItemOk(N, n) /\ Values(N, n, FALSE)) THEN FALSE
       ELSE LET r == Module(P, FALSE, {})
            IN r.ok /\ Module(P, TRUE, r.refs).da

Chains == 64
Init == i \in 1..Chains /\ i <= Len(Cases)
Next == i + Chains <= Len(Cases) /\ i' = i + Chains
Spec == Init /\ [][Next]_i
Verdict(c) == IF Accepted(c) THEN "accepted" ELSE "rejected"
(* of other texts only the form of the answer is judged here: a module and no error message, or the reverse *)
Right(c) == IF c.k = "text" THEN c.r \in {"accepted", "rejected"} ELSE c.r = Verdict(c)
Checks == Right(Cases[i]) \/ PrintT("BAD|" \o Cases[i].id \o "|" \o (IF Cases[i].k = "text" THEN "decided" ELSE Verdict(Cases[i])))
=============================================================================
