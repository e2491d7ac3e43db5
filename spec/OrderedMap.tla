----------------------------- MODULE OrderedMap -----------------------------
(* Byte strings (sequences of 0..255) in lexicographic order, a proper prefix first. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Less3(_, _, _)
Less3(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less3(a, b, i + 1)
Less(a, b) == Less3(a, b, 1)
\* the keys of K, smallest first
RECURSIVE Sorted(_)
Sorted(K) == IF K = {} THEN <<>> ELSE LET x == CHOOSE x \in K : \A y \in K \ {x} : Less(x, y) IN <<x>> \o Sorted(K \ {x})
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
