----------------------------- MODULE LogReplay -----------------------------
(***************************************************************************)
(* What recovery makes of log files, exactly.                                *)
(*                                                                          *)
(* Each behaviour holds the records found in every log file, up to the first   *)
(* record that is not intact, and the rows after one or more recoveries from    *)
(* those files.  The bound on the epochs to replay is EpochLog's; the updates    *)
(* within it are applied by timestamp.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, ok
vars == <<h, pos, ok>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the epoch of every record of a log: that of the last epoch record up to it, 0 if there is none
RECURSIVE EpochsFrom(_, _, _)
EpochsFrom(d, i, e) == IF i > Len(d) THEN <<>> ELSE LET x == IF d[i].t = "E" THEN d[i].e ELSE e IN <<x>> \o EpochsFrom(d, i + 1, x)
Analyzed(d) == LET ep == EpochsFrom(d, 1, 0) IN
  [ep |-> ep, last |-> IF d = <<>> THEN 0 ELSE ep[Len(ep)], quiet |-> d # <<>> /\ d[Len(d)].t = "Q",
   wake |-> LET W == {i \in 1..Len(d) : d[i].t = "W"} IN IF W = {} THEN 0 ELSE ep[Max(W)]]
FirstWake(d, a, q) == LET W == {i \in 1..Len(d) : d[i].t = "W" /\ a.ep[i] # 0 /\ a.ep[i] >= q} IN IF W = {} THEN 0 ELSE a.ep[Min(W)]
Bound(D, A) ==
  LET L == 1..Len(D)
      maxWake == Max({A[l].wake : l \in L})
      qs == {A[l].last : l \in {x \in L : A[x].quiet /\ A[x].last # 0}}
      minq == IF qs = {} THEN 0 ELSE Min(qs)
      missed == maxWake # 0 /\ minq # 0 /\ minq <= maxWake
  IN Min({Max({A[l].last : l \in L})} \cup {A[l].last : l \in {x \in L : ~A[x].quiet /\ A[x].last # 0}}
         \cup (IF missed THEN {FirstWake(D[l], A[l], minq) : l \in {x \in L : minq <= A[x].wake /\ FirstWake(D[x], A[x], minq) # 0}} ELSE {}))
Updates(d, a, b) == LET S == {i \in 1..Len(d) : d[i].t = "E" /\ d[i].e >= b}  n == IF S = {} THEN Len(d) ELSE Min(S) IN
  {d[i] : i \in {j \in 1..n : d[j].t \in {"P", "M", "R", "D"} /\ a.ep[j] # 0}}
Put(row, c) == LET W == Max({c[i][1] : i \in 1..Len(c)})  L == IF Len(row) > W THEN Len(row) ELSE W IN
  [x \in 1..L |-> IF \E i \in 1..Len(c) : c[i][1] = x THEN (c[CHOOSE i \in 1..Len(c) : c[i][1] = x])[2] ELSE IF x <= Len(row) THEN row[x] ELSE 0]
RECURSIVE Fold(_, _)
Fold(row, S) == IF S = {} THEN row ELSE LET o == CHOOSE x \in S : \A y \in S : x.ts <= y.ts IN
  Fold(CASE o.t = "P" -> Put(<<>>, o.c) [] o.t = "M" -> Put(row, o.c) [] o.t = "R" -> <<o.c[1][2]>> [] o.t = "D" -> <<>>, S \ {o})
Rows(it) == LET A == [l \in 1..Len(it.logs) |-> Analyzed(it.logs[l])]  b == Bound(it.logs, A)
                U == UNION {Updates(it.logs[l], A[l], b) : l \in 1..Len(it.logs)} IN
            [k \in 1..it.nk |-> Fold(<<>>, {u \in U : u.k = k})]
Init == h \in 1..Len(H) /\ pos = 0 /\ ok = ""
Next == /\ pos = 0 /\ pos' = 1 /\ h' = h
        /\ ok' = LET R == Rows(H[h]) IN IF \A i \in 1..Len(H[h].finals) : H[h].finals[i] = R THEN "" ELSE "recovered other rows"
Spec == Init /\ [][Next]_vars
Explained == ok = ""
=============================================================================
