-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* Live allocations measured after a concurrent run: the table is emptied   *)
(* and every thread has quiesced, six times over (with refills of          *)
(* different order in between), and finally the table is destroyed.         *)
(*   nt   allocations that belong to the threads themselves                 *)
(*   live the measurements; the last one is after destroy                   *)
(* An empty table may keep one empty leaf (with its suffix bag) and the     *)
(* leftmost path above it: at most one internode per level ever needed for  *)
(* nk keys.  Nothing may depend on what happened before.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, broken
vars == <<h, pos, broken>>
RECURSIVE Levels(_, _)
Levels(n, f) == IF n <= 1 THEN 0 ELSE 1 + Levels((n + f - 1) \div f, f)
\* a leaf holds at least one key, an internode has at least two children
Bound == 2 + Levels(H[h].nk, 2)
Init == h \in 1..Len(H) /\ pos = 0 /\ broken = FALSE
Next == /\ pos < Len(H[h].live) /\ pos' = pos + 1 /\ h' = h
        /\ LET n == H[h].live[pos + 1] - H[h].nt IN
           broken' = (broken \/ IF pos + 1 = Len(H[h].live) THEN n # 0 ELSE n < 1 \/ n > Bound)
Spec == Init /\ [][Next]_vars
Explained == ~broken
=============================================================================
