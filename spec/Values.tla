------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What strings and JSON values mean.  A String or StringAccum is a         *)
(* sequence of bytes and nothing else; a Json is a null, boolean, integer,  *)
(* double (in halves), string, array, or object (its entries in order of     *)
(* insertion).  Each operation changes the values it is given and            *)
(* no others, whatever storage they share in the implementation (Sharing    *)
(* specifies that part of the design).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Null == <<"n">>
Str(b) == <<"s", b>>
\* decimal keys stand for array indexes
Decimal == {ToString(i) : i \in 0..99}
NumOf == [s \in Decimal |-> CHOOSE i \in 0..99 : ToString(i) = s]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Rep(x, n) == [i \in 1..n |-> x]
Idx(ents, k) == LET I == {i \in 1..Len(ents) : ents[i][1] = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Key(e) == IF e[1] = "i" THEN ToString(e[2]) ELSE e[2]
(* the value at one step down; a place that isn't there is null *)
Sub(v, e) ==
  CASE v[1] = "o" -> LET i == Idx(v[2], Key(e)) IN IF i = 0 THEN Null ELSE v[2][i][2]
    [] v[1] = "a" -> LET i == IF e[1] = "i" THEN e[2] ELSE IF e[2] \in Decimal THEN NumOf[e[2]] ELSE -1 IN IF i >= 0 /\ i < Len(v[2]) THEN v[2][i + 1] ELSE Null
    [] OTHER -> Null
RECURSIVE Get(_, _)
Get(v, p) == IF p = <<>> THEN v ELSE Get(Sub(v, Head(p)), Tail(p))
(* v with x one step down: arrays become objects for a string key, other     *)
(* values become objects or arrays, arrays grow                              *)
SetKey(ents, k, x) == LET i == Idx(ents, k) IN IF i = 0 THEN Append(ents, <<k, x>>) ELSE [ents EXCEPT ![i][2] = x]
SetAt(v, e, x) ==
  IF v[1] = "o" THEN <<"o", SetKey(v[2], Key(e), x)>>
  ELSE IF e[1] = "k" THEN <<"o", SetKey(IF v[1] = "a" THEN [i \in 1..Len(v[2]) |-> <<ToString(i - 1), v[2][i]>>] ELSE <<>>, e[2], x)>>
  ELSE LET a == IF v[1] = "a" THEN v[2] ELSE <<>> IN <<"a", [i \in 1..Max(Len(a), e[2] + 1) |-> IF i = e[2] + 1 THEN x ELSE IF i <= Len(a) THEN a[i] ELSE Null]>>
RECURSIVE Put(_, _, _)
Put(v, p, x) == IF p = <<>> THEN x ELSE SetAt(v, Head(p), Put(Sub(v, Head(p)), Tail(p), x))
RECURSIVE SetAll(_, _)
SetAll(ents, more) == IF more = <<>> THEN ents ELSE SetAll(SetKey(ents, Head(more)[1], Head(more)[2]), Tail(more))
Drop(ents, k) == SelectSeq(ents, LAMBDA e : e[1] # k)
\* strings
Slice(b, x, y) == SubSeq(b, x + 1, y)
PerlSub(b, pos, len) == LET n == Len(b) f == IF pos >= 0 THEN pos ELSE n + pos l == IF len >= 0 THEN f + len ELSE n + len IN Slice(b, Max(f, 0), Min(l, n))
Space == {9, 10, 11, 12, 13, 32}
RECURSIVE LTrim(_)
LTrim(b) == IF b # <<>> /\ Head(b) \in Space THEN LTrim(Tail(b)) ELSE b
RECURSIVE RTrim(_)
RTrim(b) == IF b # <<>> /\ b[Len(b)] \in Space THEN RTrim(SubSeq(b, 1, Len(b) - 1)) ELSE b
Lower(b) == [i \in 1..Len(b) |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i]]
Upper(b) == [i \in 1..Len(b) |-> IF b[i] \in 97..122 THEN b[i] - 32 ELSE b[i]]
Prefix(b, c) == Len(c) <= Len(b) /\ SubSeq(b, 1, Len(c)) = c
Cmp(b, c) == LET n == Min(Len(b), Len(c)) D == {i \in 1..n : b[i] # c[i]} IN
  IF D = {} THEN (IF Len(b) < Len(c) THEN -1 ELSE IF Len(b) > Len(c) THEN 1 ELSE 0)
  ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF b[i] < c[i] THEN -1 ELSE 1
Find(b, c) == LET I == {i \in 0..(Len(b) - Len(c)) : SubSeq(b, i + 1, i + Len(c)) = c} IN IF I = {} THEN -1 ELSE CHOOSE i \in I : \A j \in I : i <= j
=============================================================================
