----------------------------- MODULE LinkTrace ------------------------------
(***************************************************************************)
(* Conformance of btree_leaflink: recorded executions.  Leaves are named by   *)
(* their rank in key order.  i: the initial list.  Events <<name, thread,      *)
(* leaf, a>>: S/s a split linking a leaf in (a: the leaf it came from) begins / *)
(* ends, U/u unlinking begins / ends, W w.. E a reader's walk, B a leaf found    *)
(* walking backwards at the end (a = 1; a = -1: pointer still marked), Z end.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, linked, ever, gone, walk, back, broken
vars == <<h, pos, linked, ever, gone, walk, back, broken>>
\* linked: certainly in the list; ever: may be or have been in it; gone: certainly out
Range(s) == {s[i] : i \in 1..Len(s)}
Idle == [on |-> FALSE, must |-> {}, gone |-> {}, seen |-> <<>>]
Init == /\ h \in 1..Len(H) /\ pos = 0 /\ linked = Range(H[h].i) /\ ever = Range(H[h].i) /\ gone = {}
        /\ walk = [t \in 1..8 |-> Idle] /\ back = <<>> /\ broken = ""
Last(s) == s[Len(s)]
Next == /\ pos < Len(H[h].e) /\ pos' = pos + 1 /\ h' = h
  /\ LET e == H[h].e[pos + 1] k == e[1] t == e[2] n == e[3] a == e[4] IN
     CASE k = "S" -> ever' = ever \union {n} /\ UNCHANGED <<linked, gone, walk, back, broken>>
       [] k = "s" -> linked' = linked \union {n} /\ UNCHANGED <<ever, gone, walk, back, broken>>
       [] k = "U" -> /\ linked' = linked \ {n} /\ walk' = [x \in 1..8 |-> [walk[x] EXCEPT !.must = @ \ {n}]]
                     /\ UNCHANGED <<ever, gone, back, broken>>
       [] k = "u" -> gone' = gone \union {n} /\ UNCHANGED <<linked, ever, walk, back, broken>>
       [] k = "W" -> walk' = [walk EXCEPT ![t] = [on |-> TRUE, must |-> linked, gone |-> gone, seen |-> <<>>]] /\ UNCHANGED <<linked, ever, gone, back, broken>>
       [] k = "w" -> /\ walk' = [walk EXCEPT ![t].seen = Append(@, n)]
                     /\ broken' = (IF n \notin ever THEN "reached a leaf never linked"
                                   ELSE IF n \in walk[t].gone THEN "unlinked leaf is back"
                                   ELSE IF walk[t].seen # <<>> /\ Last(walk[t].seen) >= n THEN "walked backwards" ELSE broken)
                     /\ UNCHANGED <<linked, ever, gone, back>>
       [] k = "E" -> /\ broken' = (IF walk[t].must \ Range(walk[t].seen) # {} THEN "skipped a leaf" ELSE broken)
                     /\ UNCHANGED <<linked, ever, gone, walk, back>>
       [] k = "B" -> /\ back' = (IF a = 1 THEN Append(back, n) ELSE back) /\ broken' = (IF a = -1 THEN "pointer left locked" ELSE broken)
                     /\ UNCHANGED <<linked, ever, gone, walk>>
       [] k = "Z" -> /\ broken' = (IF Range(walk[8].seen) # linked THEN "list is not the live leaves"
                                   ELSE IF back # [i \in 1..Len(walk[8].seen) |-> walk[8].seen[Len(walk[8].seen) + 1 - i]] THEN "backwards differs" ELSE broken)
                     /\ UNCHANGED <<linked, ever, gone, walk, back>>
Spec == Init /\ [][Next]_vars
Explained == broken = ""
=============================================================================
