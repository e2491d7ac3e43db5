------------------------------ MODULE RcuTrace ------------------------------
(***************************************************************************)
(* Conformance of kvthread's reclamation: histories of start / stop / quiesce *)
(* of several threads, of retirements lo..hi, and of the objects f (ranges)     *)
(* released by each quiescence.  reg: a callback registered a new one.           *)
(*   - an object is released at most once, after it was retired, and only by     *)
(*     the thread that retired it;                                                *)
(*   - not before every thread that was in a section when it was retired has       *)
(*     left or renewed its section;                                                 *)
(*     (starting again inside a section renews it);                                *)
(*   - after a calm phase everything has been released.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, sec, wait, broken
vars == <<h, pos, sec, wait, broken>>
\* wait: retired and unreleased objects, as ranges [lo, hi, by, holders]
Range(s) == {s[i] : i \in 1..Len(s)}
Init == h \in 1..Len(H) /\ pos = 0 /\ sec = {} /\ wait = {} /\ broken = ""
\* all of x, one range of released objects, waits without holders and was retired by t
Overlap(a, b, c, d) == ~(b < c \/ d < a)
Parts(x) == {w \in wait : Overlap(x[1], x[2], w.lo, w.hi)}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE Sum(_, _)
Sum(S, x) == IF S = {} THEN 0 ELSE LET w == CHOOSE w \in S : TRUE IN Min(x[2], w.hi) - Max(x[1], w.lo) + 1 + Sum(S \ {w}, x)
Problem(x, t) == LET P == Parts(x) IN IF Sum(P, x) # x[2] - x[1] + 1 THEN "released something not waiting"
                 ELSE IF \E w \in P : w.by # t THEN "released by another thread"
                 ELSE IF \E w \in P : w.holders # {} THEN "released while it may be held" ELSE ""
Cut(W, x) == UNION {LET w == y IN IF ~Overlap(x[1], x[2], w.lo, w.hi) THEN {w}
                    ELSE (IF w.lo < x[1] THEN {[w EXCEPT !.hi = x[1] - 1]} ELSE {}) \union (IF w.hi > x[2] THEN {[w EXCEPT !.lo = x[2] + 1]} ELSE {}) : y \in W}
RECURSIVE CutAll(_, _)
CutAll(W, s) == IF s = <<>> THEN W ELSE CutAll(Cut(W, Head(s)), Tail(s))
Leave(W, t) == {[w EXCEPT !.holders = @ \ {t}] : w \in W}
\* callbacks run during a quiescence may register callbacks (reg, by the thread that is between sections); they may even
\* be run in the same quiescence if nobody holds
Collect(e) == LET W1 == Leave(wait, e.t)
                  bad == {i \in 1..Len(e.f) : LET P == {w \in W1 : Overlap(e.f[i][1], e.f[i][2], w.lo, w.hi)} IN
                            Sum(P, e.f[i]) # e.f[i][2] - e.f[i][1] + 1 \/ (\E w \in P : w.by # e.t) \/ (\E w \in P : w.holders # {})}
              IN [w |-> CutAll(W1, e.f), bad |-> bad # {}]
Next == /\ pos < Len(H[h].e) /\ pos' = pos + 1 /\ h' = h
  /\ LET e == H[h].e[pos + 1] IN
     CASE e.k = "tick" -> UNCHANGED <<sec, wait, broken>>
       [] e.k = "start" -> sec' = sec \union {e.t} /\ wait' = Leave(wait, e.t) /\ UNCHANGED broken
       [] e.k = "ret" -> /\ wait' = wait \union {[lo |-> e.lo, hi |-> e.hi, by |-> e.t, holders |-> sec]} /\ UNCHANGED <<sec, broken>>
       [] e.k = "reg" -> /\ wait' = wait \union {[lo |-> e.id, hi |-> e.id, by |-> e.t, holders |-> sec \ {e.t}]} /\ UNCHANGED <<sec, broken>>
       [] e.k \in {"quiesce", "stop"} -> LET c == Collect(e) IN
            /\ wait' = c.w /\ sec' = (IF e.k = "stop" THEN sec \ {e.t} ELSE sec)
            /\ broken' = IF c.bad THEN "released wrongly" ELSE broken
       [] e.k = "calm" -> broken' = (IF wait # {} THEN "never released" ELSE broken) /\ UNCHANGED <<sec, wait>>
Spec == Init /\ [][Next]_vars
Explained == broken = ""
=============================================================================
