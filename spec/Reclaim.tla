------------------------------ MODULE Reclaim -------------------------------
(***************************************************************************)
(* Life of one shared object (tree node, row, suffix bag, callback) under   *)
(* epoch-based reclamation, and a monitor for its recorded life.            *)
(*                                                                          *)
(* The recorded life is a sequence of events <<kind, thread>>:              *)
(*   T  the thread accessed the object for the first time in its current    *)
(*      read-side section (from then on it may hold a pointer to it)        *)
(*   E  that section ended (quiesce or stop)                                *)
(*   R  the thread retired the object (deallocate_rcu)                      *)
(*   F  its memory was released by the reclamation machinery                *)
(*   D  its memory was released directly                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == JsonDeserialize(IOEnv.HIST)

VARIABLES h, pos, life, holders
vars == <<h, pos, life, holders>>

Kind(e) == e[1]
Thr(e)  == e[2]

Allowed(e) ==
  CASE Kind(e) = "T" -> life \in {"live", "retired"}        \* never touched after release
    [] Kind(e) = "E" -> TRUE
    [] Kind(e) = "R" -> life = "live"                       \* retired at most once
    \* nobody else can still hold it (the thread itself is between sections, in a callback at most)
    [] Kind(e) = "F" -> life = "retired" /\ holders \subseteq {Thr(e)}
    [] Kind(e) = "D" -> life = "live" /\ holders \subseteq {Thr(e)}
    [] OTHER -> FALSE

Init == h \in 1..Len(H) /\ pos = 0 /\ life = "live" /\ holders = {}

Next ==
  /\ pos < Len(H[h])
  /\ LET e == H[h][pos + 1] IN
     /\ life' = IF ~Allowed(e) THEN "broken" ELSE
                CASE Kind(e) = "R" -> "retired" [] Kind(e) \in {"F", "D"} -> "released" [] OTHER -> life
     /\ holders' = CASE Kind(e) = "T" -> holders \cup {Thr(e)}
                     [] Kind(e) = "E" -> holders \ {Thr(e)}
                     [] OTHER -> holders
  /\ pos' = pos + 1
  /\ h' = h

Spec == Init /\ [][Next]_vars
Explained == life # "broken"
=============================================================================
