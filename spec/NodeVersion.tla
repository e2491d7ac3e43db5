---------------------------- MODULE NodeVersion -----------------------------
(***************************************************************************)
(* The version word of a node: a lock bit, an "inserting" and a "splitting"  *)
(* mark, and two counters.  Writers lock by compare-and-swap, mark the kind   *)
(* of change before touching the node, change it word by word, and unlock     *)
(* with a single store that advances the matching counter.  A split may       *)
(* create a sibling that is born locked with the same word (hand-off).        *)
(* Readers take a stable version (neither mark set), read word by word, and   *)
(* compare.  One action per memory access of nodeversion.hh.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Writers, Readers, MaxChange, VI, VS     \* VI, VS: counter moduli

Nodes == {1, 2}                                   \* 2 comes into being by a split of 1
VARIABLES ver, d0, d1, born, pc, node, loc, kind, tok, seen, chg, log

vars == <<ver, d0, d1, born, pc, node, loc, kind, tok, seen, chg, log>>
V0 == [lk |-> FALSE, ins |-> FALSE, spl |-> FALSE, vi |-> 0, vs |-> 0]
Dirty(v) == v.ins \/ v.spl
Changed(a, b) == [a EXCEPT !.lk = FALSE] # [b EXCEPT !.lk = FALSE]
Split(a, b) == a.vs # b.vs
Unlocked(v) == IF v.spl THEN [lk |-> FALSE, ins |-> FALSE, spl |-> FALSE, vi |-> 0, vs |-> (v.vs + 1) % VS]
               ELSE IF v.ins THEN [lk |-> FALSE, ins |-> FALSE, spl |-> FALSE, vi |-> (v.vi + 1) % VI,
                                   vs |-> IF v.vi + 1 = VI THEN (v.vs + 1) % VS ELSE v.vs]
               ELSE [v EXCEPT !.lk = FALSE]
P == Writers \union Readers
Init == /\ ver = [n \in Nodes |-> V0] /\ d0 = [n \in Nodes |-> 0] /\ d1 = [n \in Nodes |-> 0]
        /\ born = [n \in Nodes |-> n = 1]
        /\ pc = [p \in P |-> "idle"] /\ node = [p \in P |-> 1] /\ loc = [p \in P |-> V0] /\ kind = [p \in P |-> "i"]
        /\ tok = 0 /\ seen = [p \in P |-> <<0, 0>>] /\ chg = 0
        /\ log = [p \in Readers |-> [clean |-> TRUE, split |-> FALSE]]
U(p, s) == pc' = [pc EXCEPT ![p] = s]
Un(s) == UNCHANGED s

\* ghost: every reader with a validated-to-be version learns of marks and completed splits on its node
Mark(n) == log' = [r \in Readers |-> IF pc[r] \in {"r0", "r1", "val"} /\ node[r] = n THEN [log[r] EXCEPT !.clean = FALSE] ELSE log[r]]
DoneSplit(n) == log' = [r \in Readers |-> IF pc[r] \in {"r0", "r1", "val"} /\ node[r] = n THEN [log[r] EXCEPT !.split = TRUE] ELSE log[r]]

Load(w) == /\ pc[w] = "idle" /\ chg < MaxChange /\ U(w, "cas") /\ chg' = chg + 1
           /\ \E n \in Nodes : born[n] /\ node' = [node EXCEPT ![w] = n] /\ loc' = [loc EXCEPT ![w] = ver[n]]
           /\ \E k \in {"i", "s", "h", "n"} : kind' = [kind EXCEPT ![w] = k]
           /\ Un(<<ver, d0, d1, born, tok, seen, log>>)
Cas(w) == LET n == node[w] IN
          /\ pc[w] = "cas"
          /\ IF ~loc[w].lk /\ ver[n] = loc[w] THEN ver' = [ver EXCEPT ![n].lk = TRUE] /\ U(w, "mark") /\ Un(loc)
             ELSE Un(<<ver, pc>>) /\ loc' = [loc EXCEPT ![w] = ver[n]]
          /\ Un(<<d0, d1, born, node, kind, tok, seen, chg, log>>)
DoMark(w) == LET n == node[w] IN
          /\ pc[w] = "mark"
          /\ IF kind[w] = "n" THEN U(w, "unl") /\ Un(<<ver, log, tok>>)
             ELSE /\ ver' = [ver EXCEPT ![n] = IF kind[w] = "i" THEN [@ EXCEPT !.ins = TRUE] ELSE [@ EXCEPT !.spl = TRUE]]
                  /\ Mark(n) /\ tok' = tok + 1 /\ U(w, IF kind[w] = "h" /\ ~born[2] THEN "hand" ELSE "w0")
          /\ Un(<<d0, d1, born, node, loc, kind, seen, chg>>)
Hand(w) == /\ pc[w] = "hand" /\ ver' = [ver EXCEPT ![2] = ver[node[w]]] /\ born' = [born EXCEPT ![2] = TRUE] /\ U(w, "s0")
           /\ Un(<<d0, d1, node, loc, kind, tok, seen, chg, log>>)
S0(w) == pc[w] = "s0" /\ d0' = [d0 EXCEPT ![2] = tok] /\ U(w, "s1") /\ Un(<<ver, d1, born, node, loc, kind, tok, seen, chg, log>>)
S1(w) == pc[w] = "s1" /\ d1' = [d1 EXCEPT ![2] = d0[2]] /\ U(w, "sun") /\ Un(<<ver, d0, born, node, loc, kind, tok, seen, chg, log>>)
SUn(w) == pc[w] = "sun" /\ ver' = [ver EXCEPT ![2] = Unlocked(@)] /\ DoneSplit(2) /\ U(w, "w0") /\ Un(<<d0, d1, born, node, loc, kind, tok, seen, chg>>)
W0(w) == pc[w] = "w0" /\ d0' = [d0 EXCEPT ![node[w]] = 100 + tok] /\ U(w, "w1") /\ Un(<<ver, d1, born, node, loc, kind, tok, seen, chg, log>>)
W1(w) == pc[w] = "w1" /\ d1' = [d1 EXCEPT ![node[w]] = d0[node[w]]] /\ U(w, "unl") /\ Un(<<ver, d0, born, node, loc, kind, tok, seen, chg, log>>)
Unlock(w) == LET n == node[w] IN
           /\ pc[w] = "unl" /\ ver' = [ver EXCEPT ![n] = Unlocked(@)] /\ U(w, "idle")
           /\ (IF ver[n].spl THEN DoneSplit(n) ELSE Un(log))
           /\ Un(<<d0, d1, born, node, loc, kind, tok, seen, chg>>)

Stable(r) == \E n \in Nodes :
           /\ pc[r] = "idle" /\ born[n] /\ ~Dirty(ver[n])
           /\ loc' = [loc EXCEPT ![r] = ver[n]] /\ node' = [node EXCEPT ![r] = n] /\ U(r, "r0")
           /\ log' = [log EXCEPT ![r] = [clean |-> TRUE, split |-> FALSE]]
           /\ Un(<<ver, d0, d1, born, kind, tok, seen, chg>>)
R0(r) == pc[r] = "r0" /\ seen' = [seen EXCEPT ![r][1] = d0[node[r]]] /\ U(r, "r1") /\ Un(<<ver, d0, d1, born, node, loc, kind, tok, chg, log>>)
R1(r) == pc[r] = "r1" /\ seen' = [seen EXCEPT ![r][2] = d1[node[r]]] /\ U(r, "val") /\ Un(<<ver, d0, d1, born, node, loc, kind, tok, chg, log>>)
Val(r) == pc[r] = "val" /\ U(r, "idle") /\ Un(<<ver, d0, d1, born, node, loc, kind, tok, seen, chg, log>>)

Next == \/ \E w \in Writers : Load(w) \/ Cas(w) \/ DoMark(w) \/ Hand(w) \/ S0(w) \/ S1(w) \/ SUn(w) \/ W0(w) \/ W1(w) \/ Unlock(w)
        \/ \E r \in Readers : Stable(r) \/ R0(r) \/ R1(r) \/ Val(r)
Spec == Init /\ [][Next]_vars

Holds(w, n) == \/ pc[w] \in {"mark", "hand", "w0", "w1", "unl", "s0", "s1", "sun"} /\ node[w] = n
               \/ pc[w] \in {"s0", "s1", "sun"} /\ n = 2
Mutex == \A n \in Nodes : /\ Cardinality({w \in Writers : Holds(w, n)}) <= 1
                          /\ born[n] => (ver[n].lk <=> \E w \in Writers : Holds(w, n))
\* a reader whose version is unchanged saw no change in progress or completed, and nothing torn
Atomic == \A r \in Readers : pc[r] = "val" =>
            /\ ~Changed(loc[r], ver[node[r]]) => log[r].clean /\ seen[r][1] = seen[r][2]
            /\ log[r].split => Split(loc[r], ver[node[r]])
            /\ ~log[r].clean => Changed(loc[r], ver[node[r]])
=============================================================================
