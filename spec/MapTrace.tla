------------------------------ MODULE MapTrace ------------------------------
(***************************************************************************)
(* The table as an ordered map: histories of operations executed one at a   *)
(* time on the real table.  A history names a universe of keys in order       *)
(* (checked here) and refers to keys by rank.                                  *)
(***************************************************************************)
EXTENDS OrderedMap, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, m, broken
vars == <<h, pos, m, broken>>
N == Len(H[h].keys)
\* rows are tuples of column values; 0 is an absent column value, <<>> an absent row
Init == h \in 1..Len(H) /\ pos = 0 /\ m = [i \in 1..Len(H[h].keys) |-> <<>>]
        /\ broken = IF \A i \in 1..(Len(H[h].keys) - 1) : Less(H[h].keys[i], H[h].keys[i + 1]) THEN "" ELSE "universe"
Put(row, cols, v) == LET W == IF cols = {} THEN 0 ELSE CHOOSE c \in cols : \A d \in cols : d <= c
                         L == IF Len(row) > W THEN Len(row) ELSE W IN
                     [c \in 1..L |-> IF c \in cols THEN v ELSE IF c <= Len(row) THEN row[c] ELSE 0]
Range(s) == {s[i] : i \in 1..Len(s)}
Hits(e) == IF e.k \in {"s", "S"} THEN {i \in 1..N : m[i] # <<>> /\ (i > e.x \/ (e.a = 1 /\ i = e.x))}
           ELSE {i \in 1..N : m[i] # <<>> /\ (i < e.x \/ (e.a = 1 /\ i = e.x))}
ScanOK(e) == LET hit == Hits(e)  n == Cardinality(hit)  want == IF e.b = 0 THEN n ELSE Min(e.b, n)  up == e.k \in {"s", "S"} IN
  /\ Len(e.s) = want /\ e.n = want
  /\ \A j \in 1..want : e.s[j][1] \in hit /\ e.s[j][2] = m[e.s[j][1]]
  /\ \A j \in 1..(want - 1) : IF up THEN e.s[j][1] < e.s[j + 1][1] ELSE e.s[j][1] > e.s[j + 1][1]
  /\ want < n => \A i \in hit : (IF up THEN i <= e.s[want][1] ELSE i >= e.s[want][1]) => i \in {e.s[j][1] : j \in 1..want}
Fine(e) == CASE e.k \in {"g"} -> e.r = (IF m[e.x] = <<>> THEN 0 ELSE 1) /\ (e.r = 1 => e.row = m[e.x])
             [] e.k \in {"p", "l", "i"} -> e.r = (IF m[e.x] = <<>> THEN 1 ELSE 0)      \* 1: inserted
             [] e.k = "d" -> e.r = (IF m[e.x] = <<>> THEN 0 ELSE 1)
             [] e.k \in {"s", "S", "z", "Z"} -> ScanOK(e)
             [] OTHER -> FALSE
Next == /\ pos < Len(H[h].e) /\ pos' = pos + 1 /\ h' = h
        /\ LET e == H[h].e[pos + 1] IN
           /\ broken' = IF Fine(e) THEN broken ELSE "operation"
           /\ m' = CASE e.k = "p" -> [m EXCEPT ![e.x] = Put(@, Range(e.c), e.v)]
                     [] e.k = "l" -> [m EXCEPT ![e.x] = <<e.v>>]
                     [] e.k = "i" -> [m EXCEPT ![e.x] = IF @ = <<>> THEN <<e.v>> ELSE @]
                     [] e.k = "d" -> [m EXCEPT ![e.x] = <<>>]
                     [] OTHER -> m
Spec == Init /\ [][Next]_vars
Explained == broken = ""
=============================================================================
