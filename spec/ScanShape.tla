----------------------------- MODULE ScanShape ------------------------------
(***************************************************************************)
(* What one scan call may return, whatever runs beside it: the keys of the  *)
(* requested range in strict order, none twice, no unknown key, stopping    *)
(* exactly when the visitor says so, and a count that is the number of keys *)
(* visited.  (Which keys of the range have to be there is decided per key   *)
(* by KeyLin: a scan contributes one read to every key of the range it      *)
(* covered.)                                                                *)
(*                                                                          *)
(* A recorded call is a record                                              *)
(*   d  "f" forward, "r" reverse                                            *)
(*   s  index of the start key in the sorted universe (1..n as 0..n-1),     *)
(*      -1: before every key, -2: after every key                           *)
(*   n  size of the universe      i  1 iff the start key is included        *)
(*   l  number of keys after which the visitor stops, 0 = never             *)
(*   k  the keys visited (index, -1 = not a key of the universe)            *)
(*   p  1 iff the visitor stopped the scan     c  the count returned        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, at, broken
vars == <<h, pos, at, broken>>

Fwd == H[h].d = "f"
InRange(k, last, first) ==
  /\ k >= 0 /\ k < H[h].n
  /\ IF first
     THEN \/ last = -1 /\ Fwd          \* from before everything
          \/ last = -2 /\ ~Fwd         \* from after everything
          \/ last >= 0 /\ (IF Fwd THEN k > last ELSE k < last)
          \/ last >= 0 /\ k = last /\ H[h].i = 1
     ELSE IF Fwd THEN k > last ELSE k < last

Init == h \in 1..Len(H) /\ pos = 0 /\ at = H[h].s /\ broken = FALSE
Visit == /\ pos < Len(H[h].k)
         /\ LET k == H[h].k[pos + 1] IN
            /\ broken' = (broken \/ ~InRange(k, at, pos = 0) \/ (H[h].l > 0 /\ pos >= H[h].l))
            /\ at' = k
         /\ pos' = pos + 1 /\ h' = h
Finish == /\ pos = Len(H[h].k)
          /\ broken' = (broken \/ H[h].c # pos
                               \/ (H[h].p = 1) # (H[h].l > 0 /\ pos = H[h].l))
          /\ pos' = pos + 1 /\ UNCHANGED <<h, at>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars
Explained == ~broken
=============================================================================
