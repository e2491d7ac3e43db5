------------------------------ MODULE Circular ------------------------------
(***************************************************************************)
(* Circular counters.  A producer advances a counter; observers hold values *)
(* produced within half the range of each other and compare them.           *)
(* CONSTANT M is the modulus (even).  `seq` is the window of the last        *)
(* produced values, oldest first.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Mod(m, x) == x % m
Sub(m, a, b) == (a - b) % m
\* a precedes b on the circle; meaningful when their distance is not m \div 2
Less(m, a, b) == LET d == Sub(m, b, a) IN d > 0 /\ d < m \div 2
Diff(m, a, b) == LET d == Sub(m, a, b) IN IF d < m \div 2 THEN d ELSE d - m       \* signed difference
Ambiguous(m, a, b) == Sub(m, a, b) = m \div 2
NextNonzero(m, a) == IF (a + 1) % m = 0 THEN 1 ELSE (a + 1) % m

CONSTANT M
VARIABLE seq
Half == M \div 2
Init == \E v \in 0..(M - 1) : seq = <<v>>
Keep(s) == IF Sub(M, s[Len(s)], s[1]) < Half THEN s ELSE Tail(s)
RECURSIVE Trim(_)
Trim(s) == IF Len(s) = 1 \/ Sub(M, s[Len(s)], s[1]) < Half THEN s ELSE Trim(Tail(s))
Advance(n) == seq' = Trim(Append(seq, n))
Next == LET last == seq[Len(seq)] IN
        \/ Advance(NextNonzero(M, last))                                     \* log epochs
        \/ \E k \in 1..(Half - 1) : Advance(Mod(M, last + k))                \* timestamps
Spec == Init /\ [][Next]_seq
\* values are ordered as they were produced
Ordered == \A i, j \in 1..Len(seq) :
    /\ (i < j) <=> Less(M, seq[i], seq[j])
    /\ (i < j) => Diff(M, seq[j], seq[i]) > 0 /\ Diff(M, seq[i], seq[j]) = -Diff(M, seq[j], seq[i])
Short == Len(seq) <= 4                         \* bound for TLC
NeverZero == [][seq[Len(seq)] # 0 /\ seq'[Len(seq')] = NextNonzero(M, seq[Len(seq)]) => seq'[Len(seq')] # 0]_seq
=============================================================================
