---------------------------- MODULE MsgpackTrace ----------------------------
(***************************************************************************)
(* Conformance of the real encoder and decoders to Msgpack.  Items:         *)
(*  k "e": b, the encoder's bytes for value v, mean v and nothing follows   *)
(*  k "d": a decoder's answer for b: r "ok"/"more"/"bad", value v, n bytes  *)
(*         consumed                                                         *)
(*  k "s": skipping c values of b moved the reader by n bytes               *)
(*  k "h": the reader took b's array header for c elements, moving n bytes  *)
(***************************************************************************)
EXTENDS Msgpack, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, judged   \* judged: lets TLC's workers share the work
\* recorded maps are sequences of entries; a key that appears twice fits no set
RECURSIVE Canon(_)
Canon(v) == CASE v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> <<Canon(v[2][i][1]), v[2][i][2]>>]>>
            [] v[1] = "m" -> LET s == {<<v[2][i][1], Canon(v[2][i][2])>> : i \in 1..Len(v[2])} IN <<"m", IF Cardinality({e[1] : e \in s}) = Len(v[2]) THEN s ELSE {0}>>
            [] OTHER -> v
Ok(e) == LET total == SumRuns(e.b, 1) IN
  CASE e.k = "e" -> LET d == Decode(e.b) IN d.st = "ok" /\ d.p[3] = total /\ d.v = Canon(e.v)
    [] e.k = "d" -> LET d == Decode(e.b) IN
         (CASE d.st = "any" -> e.n <= total
           [] d.st = "ok" -> e.r = "ok" /\ e.n = d.p[3] /\ d.v = Canon(e.v)
           [] d.st = "more" -> e.r = "more" /\ e.n = total
           [] d.st = "bad" -> e.r = "bad" /\ e.n <= total)
    [] e.k = "s" -> After(e.b, Start, e.c, total)[3] = e.n
    [] e.k = "h" -> LET x == Byte(e.b, Start) q == Header(x) IN
         IsArr(x) /\ e.n = q /\ e.c = (IF q = 1 THEN x - 144 ELSE Num(Bytes(e.b, Skip(e.b, Start, 1), q - 1)))
Init == h \in 1..Len(H) /\ judged = FALSE
Next == ~judged /\ judged' = TRUE /\ h' = h
Spec == Init /\ [][Next]_<<h, judged>>
Explained == judged => Ok(H[h])
=============================================================================
