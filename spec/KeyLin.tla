------------------------------- MODULE KeyLin -------------------------------
(***************************************************************************)
(* One key of the table as an atomic row with timestamps, and a monitor     *)
(* that decides whether a recorded concurrent history of that key is a      *)
(* behaviour of it.                                                         *)
(*                                                                          *)
(* Linearizability is compositional, so a history of the whole table is     *)
(* linearizable iff its projection to every key is.  A scan contributes to  *)
(* each key of the range it covered one read, either of the row it returned *)
(* or of absence.                                                           *)
(*                                                                          *)
(* A history is a record                                                    *)
(*   i   initial row (sequence of column values, <<>> = absent)             *)
(*   t   timestamp of the key's last change before the history (0 unknown)  *)
(*   o   operations, each [k kind, x outcome, t timestamp, r row, m columns,*)
(*                         v value]                                         *)
(*   e   events: i = invocation of operation i, -i = its response           *)
(*                                                                          *)
(* Kinds: g read; p put of columns m; l replace; d remove; i insert if      *)
(* absent; k a read whose leaf versions were recorded; v a later successful *)
(* revalidation of the versions recorded by operation x.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

H == JsonDeserialize(IOEnv.HIST)
CheckTs == IOEnv.CHECKTS = "1"

VARIABLES h, pos, pend, cfgs
vars == <<h, pos, pend, cfgs>>

Op(i) == H[h].o[i]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* ---- the sequential object: a row, the timestamp of its last change, and *)
(* ---- the set of recorded reads whose result must stay valid              *)
PutRow(row, m, v) ==
   LET cols == {m[j] : j \in 1..Len(m)}
       w    == Max(cols \cup {Len(row)})
   IN [c \in 1..w |-> IF c \in cols THEN v ELSE IF c <= Len(row) THEN row[c] ELSE 0]

TsOk(c, o) == CheckTs => /\ o.t > c.ts
SetTs(c, o) == IF o.t = 0 THEN c.ts ELSE o.t

Apply(c, i) ==     \* the set of states after operation i, given its recorded outcome
  LET o == Op(i) IN
  CASE o.k \in {"g", "k"} ->
         IF /\ o.r = c.row
            /\ (CheckTs /\ o.t # 0) => o.t = c.ts
         THEN {[c EXCEPT !.held = IF o.k = "k" THEN @ \cup {i} ELSE @]} ELSE {}
    [] o.k = "v" -> IF o.x \in c.held THEN {[c EXCEPT !.held = @ \ {o.x}]} ELSE {}
    [] o.k = "p" ->
         IF /\ (o.x = 1) = (c.row = <<>>)
            /\ TsOk(c, o)
            /\ c.row = <<>> => c.held = {}
         THEN {[c EXCEPT !.row = PutRow(@, o.m, o.v), !.ts = SetTs(c, o)]} ELSE {}
    [] o.k = "l" ->
         IF /\ (o.x = 1) = (c.row = <<>>)
            /\ TsOk(c, o)
            /\ c.row = <<>> => c.held = {}
         THEN {[c EXCEPT !.row = <<o.v>>, !.ts = SetTs(c, o)]} ELSE {}
    [] o.k = "d" ->
         IF c.row = <<>> THEN IF o.x = 0 THEN {c} ELSE {}
         ELSE IF o.x = 1 /\ TsOk(c, o) /\ c.held = {}
              THEN {[c EXCEPT !.row = <<>>, !.ts = SetTs(c, o)]} ELSE {}
    [] o.k = "i" ->
         IF c.row # <<>> THEN IF o.x = 0 THEN {c} ELSE {}
         ELSE IF o.x = 1 /\ TsOk(c, o) /\ c.held = {}
              THEN {[c EXCEPT !.row = <<o.v>>, !.ts = SetTs(c, o)]} ELSE {}
    [] OTHER -> {}

(* ---- the monitor: all states the object may be in, with the set of       *)
(* ---- pending operations that have already taken effect                   *)
LinOne(C, P) == UNION {UNION {{[s EXCEPT !.lin = @ \cup {i}] : s \in Apply(c, i)} : i \in P \ c.lin} : c \in C}
RECURSIVE Closure(_, _, _)
Closure(C, F, P) == LET N == LinOne(F, P) \ C IN IF N = {} THEN C ELSE Closure(C \cup N, N, P)

Ret(C, i) == {[c EXCEPT !.lin = @ \ {i}] : c \in {d \in C : i \in d.lin}}

Init == /\ h \in 1..Len(H)
        /\ pos = 0
        /\ pend = {}
        /\ cfgs = {[row |-> H[h].i, ts |-> H[h].t, lin |-> {}, held |-> {}]}

Next == /\ pos < Len(H[h].e)
        /\ pos' = pos + 1
        /\ h' = h
        /\ LET e == H[h].e[pos + 1] IN
           IF e > 0 THEN /\ pend' = pend \cup {e}
                         /\ cfgs' = cfgs
           ELSE /\ pend' = pend \ {-e}
                /\ cfgs' = Ret(Closure(cfgs, cfgs, pend), -e)

Spec == Init /\ [][Next]_vars

Explained == cfgs # {}
=============================================================================
