----------------------------- MODULE PermTrace ------------------------------
(***************************************************************************)
(* Conformance of kpermuter<w>: recorded behaviours                         *)
(*   w      width          b  1: every step starts from the first value     *)
(*   l, s   the starting value (entries, size)                              *)
(*   o      steps [o op, a, b operands, r returned slot (-1 none),          *)
(*          l, s value afterwards, k back(), f slots listed by value_from]  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, p, broken
vars == <<h, pos, p, broken>>
P == INSTANCE Permuter WITH W <- 1, p <- p
Init == /\ h \in 1..Len(H) /\ pos = 0
        /\ p = [l |-> H[h].l, s |-> H[h].s]
        /\ broken = ~P!Legal(H[h].w, p)
Next == /\ pos < Len(H[h].o) /\ pos' = pos + 1 /\ h' = h
        /\ LET e == H[h].o[pos + 1]
               q == IF e.o = "new" THEN (IF e.a < 0 THEN P!Empty(H[h].w) ELSE P!Sorted(H[h].w, e.a)) ELSE P!Do(p, e.o, e.a, e.b)
               got == [l |-> e.l, s |-> e.s] IN
           /\ broken' = (broken \/ ~(e.o = "new" \/ P!Pre(p, e.o, e.a, e.b))
                                \/ q # got \/ ~P!Legal(H[h].w, got)
                                \/ (e.o = "ins" /\ e.r # p.l[H[h].w])
                                \/ e.k # got.l[H[h].w]
                                \/ e.f # got.l)
           /\ p' = IF H[h].b = 1 THEN p ELSE got
Spec == Init /\ [][Next]_vars
Explained == ~broken
=============================================================================
