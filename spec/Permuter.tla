------------------------------ MODULE Permuter ------------------------------
(***************************************************************************)
(* A slot permutation of width W as a list of the distinct slots 0..W-1     *)
(* with a size: the first `size` entries are in use, the others are free.   *)
(* Every operation is defined on lists, exactly as kpermuter.hh documents.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Legal(w, p) == /\ Len(p.l) = w /\ {p.l[i] : i \in 1..w} = 0..(w - 1) /\ p.s \in 0..w
Empty(w) == [l |-> [i \in 1..w |-> w - i], s |-> 0]
Sorted(w, n) == [l |-> [i \in 1..w |-> IF i <= n THEN i - 1 ELSE w - 1 - (i - 1 - n)], s |-> n]

Sub(l, a, b) == IF a > b THEN <<>> ELSE SubSeq(l, a, b)
Del(l, i) == Sub(l, 1, i - 1) \o Sub(l, i + 1, Len(l))            \* 1-based
Ins(l, i, v) == Sub(l, 1, i - 1) \o <<v>> \o Sub(l, i, Len(l))

\* positions in the operations are 0-based, as in the code
InsertFromBack(p, i) == [l |-> Ins(Sub(p.l, 1, Len(p.l) - 1), i + 1, p.l[Len(p.l)]), s |-> p.s + 1]
InsertSelected(p, di, si) == [l |-> Ins(Del(p.l, si + 1), di + 1, p.l[si + 1]), s |-> p.s + 1]
Remove(p, i) == [l |-> Ins(Del(p.l, i + 1), p.s, p.l[i + 1]), s |-> p.s - 1]
RemoveToBack(p, i) == [l |-> Append(Del(p.l, i + 1), p.l[i + 1]), s |-> p.s - 1]
Rotate(p, i, j) == [p EXCEPT !.l = [k \in 1..Len(p.l) |->
                      IF k <= i \/ k > p.s THEN p.l[k]
                      ELSE p.l[1 + i + ((k - 1 - i + j - i) % (p.s - i))]]]
Exchange(p, i, j) == [p EXCEPT !.l = [k \in 1..Len(p.l) |-> IF k = i + 1 THEN p.l[j + 1] ELSE IF k = j + 1 THEN p.l[i + 1] ELSE p.l[k]]]
ExchangeValues(p, x, y) == [p EXCEPT !.l = [k \in 1..Len(p.l) |-> IF p.l[k] = x THEN y ELSE IF p.l[k] = y THEN x ELSE p.l[k]]]
SetSize(p, n) == [p EXCEPT !.s = n]

Pre(p, o, a, b) == LET w == Len(p.l) IN
  CASE o = "ins" -> p.s < w /\ a \in 0..p.s
    [] o = "sel" -> p.s < w /\ a \in 0..p.s /\ b \in p.s..(w - 1)
    [] o = "rem" -> a \in 0..(p.s - 1)
    [] o = "rtb" -> a \in 0..(p.s - 1)
    [] o = "rot" -> 0 <= a /\ a <= b /\ b <= p.s
    [] o = "exc" -> a \in 0..(w - 1) /\ b \in 0..(w - 1)
    [] o = "exv" -> a \in 0..(w - 1) /\ b \in 0..(w - 1)
    [] o = "siz" -> a \in 0..w
    [] OTHER -> FALSE
Do(p, o, a, b) ==
  CASE o = "ins" -> InsertFromBack(p, a)
    [] o = "sel" -> InsertSelected(p, a, b)
    [] o = "rem" -> Remove(p, a)
    [] o = "rtb" -> RemoveToBack(p, a)
    [] o = "rot" -> Rotate(p, a, b)
    [] o = "exc" -> Exchange(p, a, b)
    [] o = "exv" -> ExchangeValues(p, a, b)
    [] o = "siz" -> SetSize(p, a)

(* ---- the design: every value reachable from the empty permutation ------- *)
CONSTANT W
VARIABLE p
Ops == {"ins", "sel", "rem", "rtb", "rot", "exc", "exv", "siz"}
Init == p = Empty(W)
Next == \E o \in Ops, a \in 0..W, b \in 0..W : Pre(p, o, a, b) /\ p' = Do(p, o, a, b)
Spec == Init /\ [][Next]_p
AlwaysLegal == Legal(W, p)
\* what each operation leaves alone
Untouched == [][\A i \in 1..W :
    \/ p'.l = p.l
    \/ \E o \in Ops, a \in 0..W, b \in 0..W :
         /\ Pre(p, o, a, b) /\ p' = Do(p, o, a, b)
         /\ o \in {"ins", "rem", "rtb", "rot"} /\ i <= a => p'.l[i] = p.l[i]]_p
=============================================================================
