------------------------------- MODULE NVSeq --------------------------------
(***************************************************************************)
(* Sequential meaning of the version operations, at the level of flags and   *)
(* comparisons, over long runs (counter overflow) and from counters that are  *)
(* about to overflow.  H[h] = [p bits, poke, leaf, o steps]; a step has        *)
(* k operation, n repetitions, f flags afterwards <<locked, inserting,          *)
(* splitting, leaf, root, deleted>>, s for each of three saved versions          *)
(* <<has_changed, has_split, simple_has_split>>, st stable() agrees,             *)
(* u for each saved version: the values without lock and marks are equal.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, s, saved, broken
vars == <<h, pos, s, saved, broken>>
\* ni, ns: completed inserts / splits; vi: upper bound on the insert counter since the last split, -1 unknown
S0(x) == [lk |-> 0, ins |-> 0, spl |-> 0, leaf |-> x.leaf, root |-> 0, del |-> 0, ni |-> 0, ns |-> 0, vi |-> IF x.poke = 1 THEN -1 ELSE 0, g |-> 0]
Init == /\ h \in 1..Len(H) /\ pos = 0 /\ s = S0(H[h]) /\ saved = [i \in 1..3 |-> S0(H[h])] /\ broken = FALSE
VIMax == IF H[h].p = 32 THEN 64 ELSE 65536
Unlock(x) == IF x.spl = 1 THEN [x EXCEPT !.lk = 0, !.ins = 0, !.spl = 0, !.root = 0, !.ns = @ + 1, !.vi = 0]
             ELSE IF x.ins = 1 THEN [x EXCEPT !.lk = 0, !.ins = 0, !.ni = @ + 1, !.vi = IF @ < 0 THEN @ ELSE @ + 1]
             ELSE [x EXCEPT !.lk = 0]
Step(x, e) ==
  CASE e.k = "lo" -> [x EXCEPT !.lk = 1]
    [] e.k = "mi" -> [x EXCEPT !.ins = 1]
    [] e.k = "ms" -> [x EXCEPT !.spl = 1]
    [] e.k = "md" -> [x EXCEPT !.spl = 1, !.del = 1]
    [] e.k = "mt" -> [x EXCEPT !.del = 1]
    [] e.k = "mr" -> [x EXCEPT !.root = 1]
    [] e.k = "nr" -> [x EXCEPT !.root = 0]
    [] e.k = "un" -> Unlock(x)
    [] e.k = "I" -> [x EXCEPT !.ni = @ + e.n, !.vi = IF @ < 0 THEN @ ELSE @ + e.n]
    [] e.k = "S" -> [x EXCEPT !.ns = @ + e.n, !.vi = 0, !.root = 0]
    [] e.k = "po" -> [x EXCEPT !.vi = -1, !.g = @ + 1]
    [] OTHER -> x
Flags(x) == <<x.lk, x.ins, x.spl, x.leaf, x.root, x.del>>
Limit == IF H[h].p = 32 THEN 500000 ELSE 2000000000
\* comparisons: what must and what must not be reported
CmpOk(x, o, c, u) ==
  LET changes == (x.ni - o.ni) + (x.ns - o.ns)
      same == changes = 0 /\ x.g = o.g
      flags == <<x.leaf, x.root, x.del>> # <<o.leaf, o.root, o.del>>
      marks == <<x.ins, x.spl>> # <<o.ins, o.spl>>
      far == x.g # o.g \/ changes >= Limit IN
  \/ far
  \/ /\ (flags \/ marks \/ changes > 0) <=> c[1] = 1
     /\ c[2] = c[3]
     /\ (flags \/ x.ns # o.ns) => c[2] = 1
     /\ (~flags /\ x.ns = o.ns /\ (x.ni = o.ni \/ (x.vi >= 0 /\ x.vi < VIMax))) => c[2] = 0
     /\ (u = 1) <=> (~flags /\ changes = 0)
Next == /\ pos < Len(H[h].o) /\ pos' = pos + 1 /\ h' = h
        /\ LET e == H[h].o[pos + 1] n == Step(s, e) sv == IF e.k = "sv" THEN [saved EXCEPT ![e.n + 1] = s] ELSE saved IN
           /\ s' = n /\ saved' = sv
           /\ broken' = (broken \/ e.f # Flags(n) \/ e.st = 0 \/ \E i \in 1..3 : ~CmpOk(n, sv[i], e.s[i], e.u[i]))
Spec == Init /\ [][Next]_vars
Explained == ~broken
=============================================================================
