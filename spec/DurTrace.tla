------------------------------ MODULE DurTrace ------------------------------
(***************************************************************************)
(* Durability of the server: what the table may hold after a crash.           *)
(*                                                                          *)
(* Each behaviour records one incarnation of the server: the rows it started  *)
(* from, the updates that were requested (kind, columns, invocation and       *)
(* response ticks; `must` = reported done long enough before the crash for     *)
(* the log to have been synced and the epoch to have moved on), and the rows   *)
(* the table held after each of one or more recoveries from that crash.       *)
(*                                                                          *)
(* A recovery is right iff there is one moment T such that the rows of EVERY   *)
(* key are the outcome of a linearization of exactly the updates that had      *)
(* taken effect at T: all those answered before T (and all `must` ones), none  *)
(* invoked after T, and some of those under way.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, ok
vars == <<h, pos, ok>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Inf == 1000001
\* rows are tuples of column values, <<>> when the key is absent; 0 is an empty column value
Put(row, c) == LET W == Max({c[i][1] : i \in 1..Len(c)})  L == IF Len(row) > W THEN Len(row) ELSE W IN
  [x \in 1..L |-> IF \E i \in 1..Len(c) : c[i][1] = x THEN (c[CHOOSE i \in 1..Len(c) : c[i][1] = x])[2]
                  ELSE IF x <= Len(row) THEN row[x] ELSE 0]
Outcome(row, o) == CASE o.t = "P" -> Put(row, o.c) [] o.t = "R" -> <<o.c[1][2]>> [] o.t = "D" -> <<>>
\* the answer tells whether the key existed: 1 inserted / removed, 0 updated / not there, 2 not answered
Answered(row, o) == CASE o.r = 2 -> TRUE [] o.t = "D" -> (o.r = 1) = (row # <<>>) [] OTHER -> (o.r = 1) = (row = <<>>)

\* All linearizations of prefixes of one key's updates `ops` (indices I into O), as a set of records
\* [row, lo, hi]: with the row as outcome, T may be anything in lo..hi.
RECURSIVE Explore(_, _, _, _, _)
Explore(O, I, frontier, want, acc) ==
  LET Lo(s) == IF s.done = {} THEN 0 ELSE Max({O[i].inv : i \in s.done})
      HiOf(s) == LET left == I \ s.done IN IF left = {} THEN Inf ELSE Min({O[i].res : i \in left})
      good == {s \in frontier : s.row = want /\ (\A i \in I \ s.done : ~O[i].must) /\ s.lo <= HiOf(s)}
      acc2 == acc \cup {<<s.lo, HiOf(s)>> : s \in good}
      next == UNION {LET left == I \ s.done  m == Min({O[i].res : i \in left}) IN
                     {[done |-> s.done \cup {i}, row |-> Outcome(s.row, O[i]), lo |-> IF O[i].inv > s.lo THEN O[i].inv ELSE s.lo] :
                       i \in {j \in left : O[j].inv <= m /\ Answered(s.row, O[j])}} : s \in {x \in frontier : x.done # I}}
  IN IF next = {} THEN acc2 ELSE Explore(O, I, next, want, acc2)
Intervals(it, k, want) == LET I == {i \in 1..Len(it.ops) : it.ops[i].k = k} IN
  Explore(it.ops, I, {[done |-> {}, row |-> it.init[k], lo |-> 0]}, want, {})
Recovered(it, final) ==
  /\ Len(final) = Len(it.init)
  /\ LET iv == [k \in 1..Len(final) |-> Intervals(it, k, final[k])] IN
     \E T \in {0} \cup UNION {{x[1] : x \in iv[k]} : k \in 1..Len(final)} :
       \A k \in 1..Len(final) : \E x \in iv[k] : x[1] <= T /\ T <= x[2]
Init == h \in 1..Len(H) /\ pos = 0 /\ ok = ""
Next == /\ pos < Len(H[h].finals) /\ ok = "" /\ pos' = pos + 1 /\ h' = h
        /\ ok' = IF pos > 0 /\ H[h].same /\ H[h].finals[pos + 1] # H[h].finals[1] THEN "recoveries of the same files differ"
                 ELSE IF pos > 0 /\ H[h].finals[pos + 1] = H[h].finals[1] THEN ""
                 ELSE IF Recovered(H[h], H[h].finals[pos + 1]) THEN "" ELSE "not the state of any moment"
Spec == Init /\ [][Next]_vars
Explained == ok = ""
=============================================================================
