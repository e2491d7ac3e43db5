------------------------------ MODULE Msgpack -------------------------------
(***************************************************************************)
(* What a msgpack message means: the value at its beginning and how many    *)
(* bytes it takes, or that it is incomplete ("more") or not a message       *)
(* ("bad").  How the bytes arrived does not appear here: any chunking must  *)
(* give the same answer.                                                    *)
(*                                                                          *)
(* A message is a sequence of runs <<byte, count>> (a compressed sequence   *)
(* of bytes; neighbouring runs differ), so that long strings and arrays     *)
(* stay small.  A position is <<run, bytes of it consumed, bytes consumed>>.*)
(* Values:                                                                  *)
(*   <<"n">>                  null                                          *)
(*   <<"b", 0 or 1>>          boolean                                       *)
(*   <<"i", negative, bytes>> integer, its 8 bytes in two's complement      *)
(*   <<"d", bytes>>           float, as the 8 bytes of a double             *)
(*   <<"s", runs>>            string                                        *)
(*   <<"a", items>>           array, a compressed sequence of values        *)
(*   <<"m", set>>             map, a set of <<key runs, value>>             *)
(* "any" marks what is left open: sizes of 2^31 and more, maps with integer *)
(* keys of more than one byte, NaN and denormal 4-byte floats, and nesting  *)
(* deeper than MaxDepth.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
MaxDepth == 64

RECURSIVE SumRuns(_, _)
SumRuns(b, i) == IF i > Len(b) THEN 0 ELSE b[i][2] + SumRuns(b, i + 1)

Start == <<1, 0, 0>>
Byte(b, p) == b[p[1]][1]
\* skip n bytes that exist
RECURSIVE Skip(_, _, _)
Skip(b, p, n) ==
  IF n = 0 THEN p
  ELSE LET r == b[p[1]][2] - p[2] IN
       IF r > n THEN <<p[1], p[2] + n, p[3] + n>> ELSE Skip(b, <<p[1] + 1, 0, p[3] + r>>, n - r)
\* the next n bytes as runs, n bytes as a sequence
RECURSIVE Runs(_, _, _), Bytes(_, _, _)
Runs(b, p, n) ==
  IF n = 0 THEN <<>>
  ELSE LET r == b[p[1]][2] - p[2] c == IF r < n THEN r ELSE n IN
       <<<<Byte(b, p), c>>>> \o Runs(b, Skip(b, p, c), n - c)
Bytes(b, p, n) == IF n = 0 THEN <<>> ELSE <<Byte(b, p)>> \o Bytes(b, Skip(b, p, 1), n - 1)

Have(b, p, n, total) == total - p[3] >= n
OkR(v, p) == [st |-> "ok", v |-> v, p |-> p]
More(p) == [st |-> "more", v |-> <<"n">>, p |-> p]
Bad(p) == [st |-> "bad", v |-> <<"n">>, p |-> p]
Open(p) == [st |-> "any", v |-> <<"n">>, p |-> p]

\* big-endian numbers; sizes only below 2^31
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]
Pad(n, x) == [i \in 1..n |-> x]
Uns(s) == <<"i", 0, Pad(8 - Len(s), 0) \o s>>
Sig(s) == IF s[1] >= 128 THEN <<"i", 1, Pad(8 - Len(s), 255) \o s>> ELSE Uns(s)
Dbl(s) == <<"d", s>>
\* a 4-byte float as a double: the exponent is rebiased, the fraction shifted
FloatKind(s) == LET e == (s[1] % 128) * 2 + s[2] \div 128 m0 == s[2] % 128 = 0 /\ s[3] = 0 /\ s[4] = 0 IN
  IF e = 0 THEN (IF m0 THEN "zero" ELSE "open") ELSE IF e = 255 THEN (IF m0 THEN "inf" ELSE "open") ELSE "num"
Flt(s) == LET e == (s[1] % 128) * 2 + s[2] \div 128
              E == IF FloatKind(s) = "zero" THEN 0 ELSE IF FloatKind(s) = "inf" THEN 2047 ELSE e + 896
              m == s[2] % 128
          IN <<"d", <<(s[1] \div 128) * 128 + E \div 16, (E % 16) * 16 + m \div 8,
                      (m % 8) * 32 + s[3] \div 8, (s[3] % 8) * 32 + s[4] \div 8, (s[4] % 8) * 32, 0, 0, 0>>>>

Digit(x) == 48 + x
\* the text of a one-byte integer, as runs
Compress(s) == LET RECURSIVE C(_)
                   C(i) == IF i > Len(s) THEN <<>>
                           ELSE LET r == C(i + 1) IN IF r # <<>> /\ r[1][1] = s[i] THEN <<<<s[i], r[1][2] + 1>>>> \o Tail(r) ELSE <<<<s[i], 1>>>> \o r
               IN C(1)
Decimal(x) == LET n == IF x < 0 THEN -x ELSE x
                  d == IF n >= 100 THEN <<Digit(n \div 100), Digit((n \div 10) % 10), Digit(n % 10)>> ELSE IF n >= 10 THEN <<Digit(n \div 10), Digit(n % 10)>> ELSE <<Digit(n)>>
              IN Compress(IF x < 0 THEN <<45>> \o d ELSE d)

Fixint(x) == x < 128 \/ x >= 224
\* bytes of the header, including the first
Header(x) == CASE x < 192 \/ x >= 224 -> 1
             [] x \in {192, 194, 195} -> 1
             [] x \in {196, 217, 204, 208} -> 2        \* bin8 str8 uint8 int8
             [] x \in {197, 218, 205, 209, 220, 222} -> 3
             [] x \in {198, 219, 202, 206, 210, 221, 223} -> 5
             [] x \in {203, 207, 211} -> 9
             [] OTHER -> 0                              \* extensions, 193
IsStr(x) == (x >= 160 /\ x < 192) \/ x \in {196, 197, 198, 217, 218, 219}
IsArr(x) == (x >= 144 /\ x < 160) \/ x \in {220, 221}
IsMap(x) == (x >= 128 /\ x < 144) \/ x \in {222, 223}
\* values of a single byte, which runs repeat
Single(x) == Fixint(x) \/ x \in {192, 194, 195, 160, 144, 128}
SingleValue(x) == CASE x < 128 -> <<"i", 0, Pad(7, 0) \o <<x>>>> [] x >= 224 -> <<"i", 1, Pad(7, 255) \o <<x>>>>
                  [] x = 192 -> <<"n">> [] x = 194 -> <<"b", 0>> [] x = 195 -> <<"b", 1>>
                  [] x = 160 -> <<"s", <<>>>> [] x = 144 -> <<"a", <<>>>> [] x = 128 -> <<"m", {}>>
Append1(items, v, n) == IF items # <<>> /\ items[Len(items)][1] = v
                        THEN [items EXCEPT ![Len(items)] = <<v, @[2] + n>>] ELSE Append(items, <<v, n>>)

RECURSIVE Dec(_, _, _, _), Arr(_, _, _, _, _, _), Map(_, _, _, _, _, _)
Dec(b, p, total, depth) ==
  IF ~Have(b, p, 1, total) THEN More(p)
  ELSE LET x == Byte(b, p) h == Header(x) IN
  IF h = 0 THEN Bad(p)
  ELSE IF ~Have(b, p, h, total) THEN More(p)
  ELSE LET q == Skip(b, p, h)
           s == IF h > 1 THEN Bytes(b, Skip(b, p, 1), h - 1) ELSE <<>>
           sized == IsStr(x) \/ IsArr(x) \/ IsMap(x)
       IN
  IF sized /\ h = 5 /\ s[1] >= 128 THEN Open(p)
  ELSE LET n == IF ~sized THEN 0 ELSE IF h > 1 THEN Num(s) ELSE IF IsStr(x) THEN x - 160 ELSE IF IsArr(x) THEN x - 144 ELSE x - 128 IN
  CASE IsStr(x) -> IF Have(b, q, n, total) THEN OkR(<<"s", Runs(b, q, n)>>, Skip(b, q, n)) ELSE More(p)
    [] IsArr(x) -> IF n > 0 /\ depth >= MaxDepth THEN Open(p) ELSE Arr(b, q, total, depth + 1, n, <<>>)
    [] IsMap(x) -> IF n > 0 /\ depth >= MaxDepth THEN Open(p) ELSE Map(b, q, total, depth + 1, n, {})
    [] Single(x) -> OkR(SingleValue(x), q)
    [] x \in {204, 205, 206, 207} -> OkR(Uns(s), q)
    [] x \in {208, 209, 210, 211} -> OkR(Sig(s), q)
    [] x = 203 -> OkR(Dbl(s), q)
    [] x = 202 -> IF FloatKind(s) = "open" THEN Open(p) ELSE OkR(Flt(s), q)
Arr(b, p, total, depth, n, items) ==
  IF n = 0 THEN OkR(<<"a", items>>, p)
  ELSE IF ~Have(b, p, 1, total) THEN More(p)
  ELSE LET x == Byte(b, p) IN
  IF Single(x)
  THEN LET r == b[p[1]][2] - p[2] c == IF r < n THEN r ELSE n IN Arr(b, Skip(b, p, c), total, depth, n - c, Append1(items, SingleValue(x), c))
  ELSE LET d == Dec(b, p, total, depth) IN
       IF d.st # "ok" THEN d ELSE Arr(b, d.p, total, depth, n - 1, Append1(items, d.v, 1))
\* a later entry of a key replaces an earlier one
Map(b, p, total, depth, n, got) ==
  IF n = 0 THEN OkR(<<"m", got>>, p)
  ELSE IF ~Have(b, p, 1, total) THEN More(p)
  ELSE LET x == Byte(b, p) h == Header(x) IN
  IF h = 0 THEN Bad(p)
  ELSE IF ~Have(b, p, h, total) THEN More(p)
  ELSE IF x \in {204, 205, 206, 207, 208, 209, 210, 211} THEN Open(p)
  ELSE IF ~(IsStr(x) \/ Fixint(x)) THEN (IF (IsArr(x) \/ IsMap(x)) /\ h = 5 THEN Open(p) ELSE Bad(p))
  ELSE LET k == Dec(b, p, total, depth) IN
  IF k.st # "ok" THEN k
  ELSE LET key == IF IsStr(x) THEN k.v[2] ELSE Decimal(IF x >= 224 THEN x - 256 ELSE x)
           v == Dec(b, k.p, total, depth)
       IN IF v.st # "ok" THEN v
          ELSE Map(b, v.p, total, depth, n - 1, {e \in got : e[1] # key} \cup {<<key, v.v>>})

Decode(b) == Dec(b, Start, SumRuns(b, 1), 0)
\* position after n values
RECURSIVE After(_, _, _, _)
After(b, p, n, total) == IF n = 0 THEN p ELSE After(b, Dec(b, p, total, 0).p, n - 1, total)
=============================================================================
