------------------------------ MODULE HashIndex ------------------------------
(* The insertion-ordered hash table below maps and sets (C11): an array of entries in insertion order (removed entries    *)
(* leave holes), and an open addressing index with robin hood insertion and backward shifting removal.  It is checked     *)
(* that this design implements the abstract dictionary `dict` for every history of the operations and every assignment of *)
(* hashes in Hashes.  TLC prints one history per transition of the concrete layout; they are replayed into the real code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys,          \* 1..n
          HashSets       \* set of functions (sequences) key -> hash value
VARIABLES h,             \* the hash function
          cap, ents, idx, \* index capacity, entries (key or 0 for a hole), index: bucket -> entry position or 0
          dict,          \* abstract: sequence of <<key, value>> in insertion order
          hist           \* operations so far (history variable, not part of the layout)
vars == <<h, cap, ents, idx, dict, hist>>
Layout == <<h, cap, ents, idx>>

Hash1 == {<<0, 0, 0, 1, 1>>, <<7, 7, 0, 0, 8>>, <<3, 11, 3, 4, 5>>, <<6, 6, 14, 7, 0>>}
Hash2 == {<<0, 0, 0, 1, 1, 2>>, <<7, 15, 0, 0, 8, 7>>, <<3, 11, 3, 4, 5, 3>>, <<0, 1, 2, 3, 4, 5>>, <<2, 2, 2, 2, 2, 2>>}

Size == Len(dict)
Full == cap - cap \div 4
Dist(hv, b, c) == (b - hv) % c
Next1(b, c) == (b + 1) % c
Empty(c) == [b \in 0..(c - 1) |-> 0]

(* insert position p (of key k) into the index *)
RECURSIVE Put(_, _, _, _, _)
Put(ix, en, c, p, b) ==     \* b: <<bucket, distance>>
    LET q == ix[b[1]] IN
    IF q = 0 THEN [ix EXCEPT ![b[1]] = p]
    ELSE LET dq == Dist(h[en[q]], b[1], c) IN
         IF dq < b[2] THEN Put([ix EXCEPT ![b[1]] = p], en, c, q, <<Next1(b[1], c), dq + 1>>)
         ELSE Put(ix, en, c, p, <<Next1(b[1], c), b[2] + 1>>)
RECURSIVE Rehash(_, _, _, _)
Rehash(ix, en, c, p) == IF p > Len(en) THEN ix ELSE Rehash(Put(ix, en, c, p, <<h[en[p]] % c, 0>>), en, c, p + 1)

(* bucket of key k, or -1 *)
RECURSIVE FindFrom(_, _, _)
FindFrom(k, b, d) ==
    LET p == idx[b] IN
    IF p = 0 THEN -1
    ELSE IF d > Dist(h[ents[p]], b, cap) THEN -1
    ELSE IF ents[p] = k THEN b
    ELSE FindFrom(k, Next1(b, cap), d + 1)
Find(k) == IF cap = 0 THEN -1 ELSE FindFrom(k, h[k] % cap, 0)

Holes(en) == Cardinality({i \in 1..Len(en) : en[i] = 0})
Pack(en) == SelectSeq(en, LAMBDA k : k # 0)
DictIndex(k) == IF \E i \in 1..Size : dict[i][1] = k THEN CHOOSE i \in 1..Size : dict[i][1] = k ELSE 0

(* room for one more entry: <<capacity, entries, index>> *)
Room ==
    IF cap = 0 THEN <<8, <<>>, Empty(8)>>
    ELSE IF Len(ents) < Full THEN <<cap, ents, idx>>
    ELSE LET c == IF Size \div 3 >= Full \div 4 THEN 2 * cap ELSE cap
             en == Pack(ents)
         IN <<c, en, Rehash(Empty(c), en, c, 1)>>

Set(k, v) ==
    LET r == Room
        known == Find(k) # -1
    IN /\ cap' = r[1]
       /\ ents' = IF known THEN r[2] ELSE Append(r[2], k)
       /\ idx' = IF known THEN r[3] ELSE Put(r[3], Append(r[2], k), r[1], Len(r[2]) + 1, <<h[k] % r[1], 0>>)
       /\ dict' = IF DictIndex(k) # 0 THEN [dict EXCEPT ![DictIndex(k)] = <<k, v>>] ELSE Append(dict, <<k, v>>)
       /\ hist' = hist \o "s" \o ToString(k)
       /\ UNCHANGED h

(* backward shift: pull entries of the chain into the hole at bucket e *)
RECURSIVE Shift(_, _, _, _)
Shift(ix, en, e, b) ==
    LET p == ix[b] IN
    IF p = 0 \/ Dist(h[en[p]], b, cap) = 0 THEN ix
    ELSE Shift([ix EXCEPT ![e] = p, ![b] = 0], en, b, Next1(b, cap))
Remove(k) ==
    LET b == Find(k) IN
    /\ hist' = hist \o "r" \o ToString(k)
    /\ UNCHANGED h
    /\ IF b = -1 THEN UNCHANGED <<cap, ents, idx, dict>>
       ELSE LET p == idx[b]
                en0 == IF p = Len(ents) THEN SubSeq(ents, 1, p - 1) ELSE [ents EXCEPT ![p] = 0]
                en == IF Size = 1 THEN <<>> ELSE en0
                ix == Shift([idx EXCEPT ![b] = 0], ents, b, Next1(b, cap))
                compact == (Size - 1) <= Len(en) \div 2 /\ Holes(en) > 0
            IN /\ ents' = IF compact THEN Pack(en) ELSE en
               /\ idx' = IF compact THEN Rehash(Empty(cap), Pack(en), cap, 1) ELSE ix
               /\ dict' = LET i == DictIndex(k) IN SubSeq(dict, 1, i - 1) \o SubSeq(dict, i + 1, Size)
               /\ UNCHANGED cap
Clear == /\ hist' = hist \o "c0"
         /\ ents' = <<>>
         /\ idx' = IF cap = 0 THEN idx ELSE Empty(cap)
         /\ dict' = <<>>
         /\ UNCHANGED <<h, cap>>

Init == /\ h \in HashSets
        /\ cap = 0 /\ ents = <<>> /\ idx = <<>> /\ dict = <<>> /\ hist = ""
Val == Len(hist) \div 2 + 1      \* the position of the operation in the history
RECURSIVE Show(_)
Show(d) == IF d = <<>> THEN "" ELSE ToString(d[1][1]) \o ":" \o ToString(d[1][2]) \o "," \o Show(Tail(d))
Next == /\ \/ \E k \in Keys : Set(k, Val) \/ Remove(k)
           \/ Clear
        /\ PrintT("HIST|" \o ToString(h) \o "|" \o hist' \o "|" \o Show(dict'))
Spec == Init /\ [][Next]_vars

(* the design implements the dictionary *)
Abstract == /\ Pack(ents) = [i \in 1..Size |-> dict[i][1]]
            /\ \A k \in Keys : (Find(k) # -1) = (DictIndex(k) # 0)
            /\ \A k \in Keys : Find(k) # -1 => ents[idx[Find(k)]] = k
            /\ \A i, j \in 1..Size : dict[i][1] = dict[j][1] => i = j
Shape == cap > 0 => /\ Len(ents) <= Full
                    /\ Cardinality({b \in DOMAIN idx : idx[b] # 0}) = Size
                    /\ \A b \in DOMAIN idx : idx[b] # 0 => ents[idx[b]] # 0
=============================================================================
