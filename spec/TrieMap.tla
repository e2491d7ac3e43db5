------------------------------- MODULE TrieMap -------------------------------
(***************************************************************************)
(* Masstree's key layout as a design: a trie of sorted layers.  A layer for a *)
(* prefix p (a multiple of S bytes) orders its entries by the next S bytes,     *)
(* padded with zeroes and read as a number, then by length class: 0..S bytes      *)
(* left, or more (S+1).  A class S+1 position either stores one key with its       *)
(* suffix or leads to the layer below.  Layers appear when two keys collide and      *)
(* may disappear when empty.  The invariant: this is the ordered map over            *)
(* lexicographically ordered byte strings, including scans from any start key,       *)
(* in both directions.                                                              *)
(***************************************************************************)
EXTENDS OrderedMap, TLC
CONSTANTS S, MaxLen, Bytes, MaxKeys
VARIABLES ent, lay, keys        \* entries [p, s, c, x]: layer, slice, class, suffix;  layers;  the abstract set
vars == <<ent, lay, keys>>
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET T == Strings(n - 1) IN T \union {Append(t, b) : t \in {u \in T : Len(u) = n - 1}, b \in Bytes}
Keys == Strings(MaxLen)
Base == 1 + (CHOOSE b \in Bytes : \A c \in Bytes : c <= b)
Slice(r) == [i \in 1..S |-> IF i <= Len(r) THEN r[i] ELSE 0]
RECURSIVE NumberFrom(_, _)
NumberFrom(s, i) == IF i = 0 THEN 0 ELSE s[i] + Base * NumberFrom(s, i - 1)
Number(s) == NumberFrom(s, S)
Class(r) == IF Len(r) > S THEN S + 1 ELSE Len(r)
Rest(k, p) == SubSeq(k, Len(p) + 1, Len(k))
Tail2(r) == SubSeq(r, S + 1, Len(r))
Entry(k, p) == LET r == Rest(k, p) IN [p |-> p, s |-> Slice(r), c |-> Class(r), x |-> IF Len(r) > S THEN Tail2(r) ELSE <<>>]
Below(e) == e.p \o e.s
KeyOf(e) == IF e.c = S + 1 THEN e.p \o e.s \o e.x ELSE e.p \o SubSeq(e.s, 1, e.c)
\* descend to the layer responsible for k
RECURSIVE Descend(_, _)
Descend(k, p) == LET e == Entry(k, p) IN IF e.c = S + 1 /\ Below(e) \in lay THEN Descend(k, Below(e)) ELSE p
Find(k) == Entry(k, Descend(k, <<>>)) \in ent
\* insertion: in the layer reached, or in new layers below it when the position is taken by another key
RECURSIVE NewLayers(_, _, _)
NewLayers(a, b, p) == \* layers to create so that a and b, colliding at p, part
  LET ea == Entry(a, p)  eb == Entry(b, p) IN
  IF ea.s = eb.s /\ ea.c = eb.c /\ ea.c = S + 1 THEN {Below(ea)} \union NewLayers(a, b, Below(ea)) ELSE {}
Deepest(L, p) == IF L = {} THEN p ELSE CHOOSE q \in L : \A r \in L : Len(r) <= Len(q)
Insert(k) == /\ ~Find(k) /\ Cardinality(keys) < MaxKeys /\ keys' = keys \union {k}
             /\ LET p == Descend(k, <<>>)  e == Entry(k, p)  clash == {f \in ent : f.p = p /\ f.s = e.s /\ f.c = e.c} IN
                IF clash = {} THEN ent' = ent \union {e} /\ UNCHANGED lay
                ELSE LET f == CHOOSE f \in clash : TRUE  o == KeyOf(f)  L == NewLayers(o, k, p)  q == Deepest(L, p) IN
                     lay' = lay \union L /\ ent' = (ent \ {f}) \union {Entry(o, q), Entry(k, q)}
Remove(k) == /\ Find(k) /\ keys' = keys \ {k} /\ ent' = ent \ {Entry(k, Descend(k, <<>>))} /\ UNCHANGED lay
\* an empty layer without layers below it is removed, at any later time or never
Collapse(p) == /\ p # <<>> /\ \A e \in ent : e.p # p
               /\ \A q \in lay : ~(Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p)
               /\ lay' = lay \ {p} /\ UNCHANGED <<ent, keys>>
Init == ent = {} /\ lay = {<<>>} /\ keys = {}
Next == (\E k \in Keys : Insert(k) \/ Remove(k)) \/ (\E p \in lay : Collapse(p))
Spec == Init /\ [][Next]_vars
\* a layer's positions in order; one position may be an entry or a layer
Positions(p) == {[s |-> e.s, c |-> e.c] : e \in {f \in ent : f.p = p}} \union {[s |-> SubSeq(q, Len(p) + 1, Len(q)), c |-> S + 1] : q \in {r \in lay : Len(r) = Len(p) + S /\ SubSeq(r, 1, Len(p)) = p}}
PLess(a, b) == Number(a.s) < Number(b.s) \/ (a.s = b.s /\ a.c < b.c)
RECURSIVE SortP(_)
SortP(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T \ {x} : PLess(x, y) IN <<x>> \o SortP(T \ {x})
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Here(p, a) == LET E == {f \in ent : f.p = p /\ f.s = a.s /\ f.c = a.c} IN IF E = {} THEN <<>> ELSE <<KeyOf(CHOOSE f \in E : TRUE)>>
IsLayer(p, a) == a.c = S + 1 /\ (p \o a.s) \in lay
RECURSIVE All(_)
All(p) == LET P == SortP(Positions(p)) IN Flatten([i \in 1..Len(P) |-> IF IsLayer(p, P[i]) THEN All(p \o P[i].s) ELSE Here(p, P[i])])
\* scan upwards from start key k: in each layer on k's path, the positions after k's, preceded by what k's own position gives
RECURSIVE Up(_, _, _)
Up(k, p, incl) == LET e == Entry(k, p)  a == [s |-> e.s, c |-> e.c]  after == SortP({b \in Positions(p) : PLess(a, b)})
                      own == IF IsLayer(p, a) THEN Up(k, p \o a.s, incl)
                             ELSE LET E == {f \in ent : f.p = p /\ f.s = a.s /\ f.c = a.c} IN
                                  IF E = {} THEN <<>> ELSE LET f == CHOOSE f \in E : TRUE IN IF Less(e.x, f.x) \/ (e.x = f.x /\ incl) THEN <<KeyOf(f)>> ELSE <<>>
                  IN own \o Flatten([i \in 1..Len(after) |-> IF IsLayer(p, after[i]) THEN All(p \o after[i].s) ELSE Here(p, after[i])])
RECURSIVE Down(_, _, _)
Down(k, p, incl) == LET e == Entry(k, p)  a == [s |-> e.s, c |-> e.c]  before == SortP({b \in Positions(p) : PLess(b, a)})
                        own == IF IsLayer(p, a) THEN Down(k, p \o a.s, incl)
                               ELSE LET E == {f \in ent : f.p = p /\ f.s = a.s /\ f.c = a.c} IN
                                    IF E = {} THEN <<>> ELSE LET f == CHOOSE f \in E : TRUE IN IF Less(f.x, e.x) \/ (e.x = f.x /\ incl) THEN <<KeyOf(f)>> ELSE <<>>
                    IN own \o Reverse(Flatten([i \in 1..Len(before) |-> IF IsLayer(p, before[i]) THEN All(p \o before[i].s) ELSE Here(p, before[i])]))
\* ---- what has to hold ----
Lookup == \A k \in Keys : Find(k) = (k \in keys)
Whole == All(<<>>) = Sorted(keys)
Scans == LET A == Sorted(keys)  R == Reverse(A) IN \A k \in Keys, incl \in BOOLEAN :
           /\ Up(k, <<>>, incl) = SelectSeq(A, LAMBDA x : Less(k, x) \/ (incl /\ x = k))
           /\ Down(k, <<>>, incl) = SelectSeq(R, LAMBDA x : Less(x, k) \/ (incl /\ x = k))
\* one key per position; no entry where a layer is; every entry's layer exists, and the layers above it
Shape == /\ \A e, f \in ent : e.p = f.p /\ e.s = f.s /\ e.c = f.c => e = f
         /\ \A e \in ent : e.p \in lay /\ ~(e.c = S + 1 /\ Below(e) \in lay)
         /\ \A p \in lay : p # <<>> => SubSeq(p, 1, Len(p) - S) \in lay
=============================================================================
