------------------------------ MODULE NVTrace -------------------------------
(***************************************************************************)
(* Conformance of nodeversion<P>: recorded executions of real threads        *)
(* locking, changing, splitting (with hand-off) and reading nodes.           *)
(* Events <<name, thread, node, a, b, c, d>> in the order they happened:      *)
(*  L/u lock taken / unlock returned, U unlock about to be called (a = kind   *)
(*  of change 0 none 1 insert 2 split, b token), A node born locked, M/m marking        *)
(*  (a kind, b token), R/r stable version wanted / obtained (a leaf, d dirty), *)
(*  V/v comparison wanted / done (a unchanged, b, c words read),               *)
(*  X/x split comparison (a has split), F try_lock failed.                     *)
(* An effect lies between the two events that bracket it, so each rule below   *)
(* holds whatever happened in between.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, pos, own, prog, rd, lastdone, broken
vars == <<h, pos, own, prog, rd, lastdone, broken>>
N == 70
T == 8
NoRead == [on |-> FALSE]
Init == /\ h \in 1..Len(H) /\ pos = 0
        /\ own = <<>> /\ prog = <<>> /\ rd = [t \in 1..T |-> NoRead] /\ lastdone = <<>> /\ broken = ""
Get(f, n, d) == IF n \in DOMAIN f THEN f[n] ELSE d
Put(f, n, v) == [x \in DOMAIN f \union {n} |-> IF x = n THEN v ELSE f[x]]
Own(n) == Get(own, n, 0)
Prog(n) == Get(prog, n, [k |-> 0, tok |-> 0, sure |-> FALSE])
Last(n) == Get(lastdone, n, 0)
\* apply f to every reader of node n
Readers(n, f(_)) == [t \in 1..T |-> IF rd[t].on /\ rd[t].n = n THEN f(rd[t]) ELSE rd[t]]

Next == /\ pos < Len(H[h].e) /\ pos' = pos + 1 /\ h' = h
  /\ LET e == H[h].e[pos + 1] k == e[1] t == e[2] n == e[3] a == e[4] b == e[5] c == e[6] d == e[7] IN
     CASE k = "L" -> /\ own' = Put(own, n, t) /\ broken' = (IF Own(n) # 0 THEN "two holders" ELSE IF a # 1 THEN "not locked" ELSE broken)
                     /\ UNCHANGED <<prog, rd, lastdone>>
       [] k = "A" -> /\ own' = Put(own, n, t) /\ broken' = (IF Own(n) # 0 \/ a # 1 THEN "born unlocked" ELSE broken)
                     /\ prog' = Put(prog, n, [k |-> 2, tok |-> b, sure |-> TRUE]) /\ UNCHANGED <<rd, lastdone>>
       [] k = "M" -> /\ prog' = Put(prog, n, [k |-> a, tok |-> b, sure |-> FALSE]) /\ broken' = (IF Own(n) # t THEN "not holder" ELSE broken)
                     /\ LET f(r) == [r EXCEPT !.may = TRUE, !.newest = b] IN rd' = Readers(n, f)
                     /\ UNCHANGED <<own, lastdone>>
       [] k = "m" -> /\ prog' = Put(prog, n, [Prog(n) EXCEPT !.sure = TRUE])
                     /\ LET f(r) == IF r.got /\ ~r.cmp THEN [r EXCEPT !.must = TRUE] ELSE r IN rd' = Readers(n, f)
                     /\ UNCHANGED <<own, lastdone, broken>>
       [] k = "U" -> /\ own' = Put(own, n, 0)
                     /\ broken' = (IF Own(n) # t THEN "unlock by another" ELSE broken)
                     \* from here on the node may be clean again
                     /\ LET f(r) == [r EXCEPT !.clean = TRUE, !.maysplit = @ \/ a = 2, !.may = TRUE, !.pend = IF r.got THEN @ \union {t} ELSE @] IN rd' = Readers(n, f)
                     /\ prog' = Put(prog, n, [Prog(n) EXCEPT !.sure = FALSE]) /\ UNCHANGED lastdone
       [] k = "u" -> /\ lastdone' = (IF b > Last(n) THEN Put(lastdone, n, b) ELSE lastdone)
                     /\ prog' = (IF Own(n) = 0 THEN Put(prog, n, [Prog(n) EXCEPT !.k = 0]) ELSE prog)
                     /\ LET f(r) == IF a = 2 /\ r.got /\ ~r.xcmp /\ t \in r.pend THEN [r EXCEPT !.mustsplit = TRUE] ELSE r IN rd' = Readers(n, f)
                     /\ UNCHANGED <<own, broken>>
       [] k = "R" -> /\ rd' = [rd EXCEPT ![t] = [on |-> TRUE, n |-> n, got |-> FALSE, cmp |-> FALSE, xcmp |-> FALSE, pend |-> {},
                                 clean |-> ~(Prog(n).k # 0 /\ Prog(n).sure /\ Own(n) # 0), may |-> Own(n) # 0 \/ Prog(n).k # 0, must |-> FALSE,
                                 maysplit |-> Prog(n).k = 2, mustsplit |-> FALSE, oldest |-> Last(n), newest |-> Prog(n).tok]]
                     /\ UNCHANGED <<own, prog, lastdone, broken>>
       [] k = "r" -> /\ rd' = [rd EXCEPT ![t].got = TRUE]
                     /\ broken' = (IF d # 0 THEN "dirty version called stable" ELSE IF ~rd[t].clean THEN "stable although a change was in progress"
                                   ELSE IF a # H[h].l THEN "leaf bit lost" ELSE broken)
                     /\ UNCHANGED <<own, prog, lastdone>>
       [] k = "V" -> /\ rd' = [rd EXCEPT ![t].cmp = TRUE] /\ UNCHANGED <<own, prog, lastdone, broken>>
       [] k = "v" -> /\ broken' = (IF a = 1 /\ rd[t].must THEN "change not noticed"
                                   ELSE IF a = 0 /\ ~rd[t].may THEN "change reported without any"
                                   ELSE IF a = 1 /\ b # c THEN "torn read"
                                   ELSE IF a = 1 /\ (b < rd[t].oldest \/ (b > rd[t].oldest /\ b > rd[t].newest)) THEN "read neither old nor new"
                                   ELSE broken)
                     /\ UNCHANGED <<own, prog, lastdone, rd>>
       [] k = "X" -> /\ rd' = [rd EXCEPT ![t].xcmp = TRUE] /\ UNCHANGED <<own, prog, lastdone, broken>>
       [] k = "x" -> /\ broken' = (IF a = 0 /\ rd[t].mustsplit THEN "split not noticed" ELSE IF a = 1 /\ ~rd[t].maysplit THEN "split reported without any" ELSE broken)
                     /\ rd' = [rd EXCEPT ![t] = NoRead] /\ UNCHANGED <<own, prog, lastdone>>
       [] k = "F" -> UNCHANGED <<own, prog, rd, lastdone, broken>>
       [] OTHER -> broken' = k /\ UNCHANGED <<own, prog, rd, lastdone>>
Spec == Init /\ [][Next]_vars
Explained == broken = ""
=============================================================================
