----------------------------- MODULE MsgStream ------------------------------
(***************************************************************************)
(* Design of the incremental decoder: it takes its input in pieces, keeps   *)
(* an unfinished header or string aside and a stack of unfinished arrays    *)
(* and maps, and must at every moment know exactly what Msgpack says about  *)
(* the bytes so far.  TLC feeds every message over Alphabet up to Len bytes *)
(* in every division into pieces.                                           *)
(***************************************************************************)
EXTENDS Msgpack
CONSTANTS Alphabet, MaxLen
VARIABLES msg, pos, st
vars == <<msg, pos, st>>

Min(a, b) == IF a < b THEN a ELSE b
Fresh == [res |-> "more", v |-> <<"n">>, used |-> 0, buf |-> <<>>, need |-> 0, mode |-> "head", stack |-> <<>>]
Fail(s) == [s EXCEPT !.res = "bad"]
\* A value is complete: it goes into the innermost unfinished array or map
\* entry, or serves as a key; finished arrays and maps are values themselves.
RECURSIVE Put(_, _)
Put(s, v) ==
  IF s.stack = <<>> THEN [s EXCEPT !.res = "ok", !.v = v]
  ELSE LET f == s.stack[Len(s.stack)] rest == SubSeq(s.stack, 1, Len(s.stack) - 1) IN
  CASE f.t = "a" -> LET i == Append1(f.items, v, 1) IN
         IF f.left = 1 THEN Put([s EXCEPT !.stack = rest], <<"a", i>>)
         ELSE [s EXCEPT !.stack = Append(rest, [f EXCEPT !.items = i, !.left = @ - 1])]
    [] f.t = "k" -> IF v[1] = "s" \/ v[1] = "i"
         THEN [s EXCEPT !.stack = Append(rest, [f EXCEPT !.t = "m", !.key = IF v[1] = "s" THEN v[2] ELSE Decimal(IF v[2] = 1 THEN v[3][8] - 256 ELSE v[3][8])])]
         ELSE Fail(s)
    [] f.t = "m" -> LET g == {e \in f.items : e[1] # f.key} \cup {<<f.key, v>>} IN
         IF f.left = 1 THEN Put([s EXCEPT !.stack = rest], <<"m", g>>)
         ELSE [s EXCEPT !.stack = Append(rest, [f EXCEPT !.t = "k", !.items = g, !.left = @ - 1])]
AtKey(s) == s.stack # <<>> /\ s.stack[Len(s.stack)].t = "k"
\* a header is complete
Begin(s0, b) ==
  LET x == b[1] r == Tail(b) s == [s0 EXCEPT !.buf = <<>>]
      n == IF Len(b) > 1 THEN Num(r) ELSE IF IsStr(x) THEN x - 160 ELSE IF IsArr(x) THEN x - 144 ELSE x - 128
  IN CASE IsStr(x) -> IF n = 0 THEN Put(s, <<"s", <<>>>>) ELSE [s EXCEPT !.mode = "string", !.need = n]
       [] IsArr(x) -> IF AtKey(s) THEN Fail(s) ELSE IF n = 0 THEN Put(s, <<"a", <<>>>>) ELSE [s EXCEPT !.stack = Append(@, [t |-> "a", items |-> <<>>, left |-> n, key |-> <<>>])]
       [] IsMap(x) -> IF AtKey(s) THEN Fail(s) ELSE IF n = 0 THEN Put(s, <<"m", {}>>) ELSE [s EXCEPT !.stack = Append(@, [t |-> "k", items |-> {}, left |-> n, key |-> <<>>])]
       [] Single(x) -> Put(s, SingleValue(x))
       [] x \in {204, 205, 206, 207} -> Put(s, Uns(r))
       [] x \in {208, 209, 210, 211} -> Put(s, Sig(r))
       [] x = 203 -> Put(s, Dbl(r))
       [] x = 202 -> Put(s, Flt(r))
\* take in one piece
RECURSIVE Feed(_, _)
Feed(s, c) ==
  IF c = <<>> \/ s.res # "more" THEN s
  ELSE IF s.mode = "string"
  THEN LET k == Min(s.need - Len(s.buf), Len(c)) b == s.buf \o SubSeq(c, 1, k) t == [s EXCEPT !.buf = b, !.used = @ + k]
       IN IF Len(b) < s.need THEN t ELSE Feed(Put([t EXCEPT !.buf = <<>>, !.mode = "head", !.need = 0], <<"s", Compress(b)>>), SubSeq(c, k + 1, Len(c)))
  ELSE LET x == IF s.buf = <<>> THEN c[1] ELSE s.buf[1] h == Header(x) IN
       IF h = 0 THEN Fail(s)
       ELSE LET k == Min(h - Len(s.buf), Len(c)) b == s.buf \o SubSeq(c, 1, k) t == [s EXCEPT !.buf = b, !.used = @ + k]
            IN IF Len(b) < h THEN t ELSE Feed(Begin(t, b), SubSeq(c, k + 1, Len(c)))

Init == msg \in UNION {[1..n -> Alphabet] : n \in 1..MaxLen} /\ pos = 0 /\ st = Fresh
Next == \E k \in 1..(Len(msg) - pos) : /\ st' = Feed(st, SubSeq(msg, pos + 1, pos + k)) /\ pos' = pos + k /\ msg' = msg
Spec == Init /\ [][Next]_vars

Meaning == LET d == Decode(Compress(SubSeq(msg, 1, pos))) IN
  CASE d.st = "ok" -> st.res = "ok" /\ st.v = d.v /\ st.used = d.p[3]
    [] d.st = "more" -> st.res = "more" /\ st.used = pos
    [] d.st = "bad" -> st.res = "bad"
    [] d.st = "any" -> TRUE
=============================================================================
