------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* What a connection to the server observes.                                  *)
(*                                                                          *)
(* Every connection works on keys of its own (other connections never change  *)
(* them), so each of its requests has exactly one right answer: that of a map  *)
(* from keys to rows to which the requests are applied one by one, in order.   *)
(*                                                                          *)
(* A behaviour is what one connection sent (e.r: complete requests, in order)  *)
(* and received (e.p), however the bytes were cut into pieces or batched, and  *)
(* the rows its keys had at the end (e.f).  Keys are numbers, ranks among all   *)
(* keys of all connections; e.own are this connection's.                       *)
(*   e.t   "T" a stream connection, "U" datagrams                              *)
(*   e.o   the server closed the connection                                    *)
(*   e.cut the client closed it without reading all replies                    *)
(* Requests: P put, R replace, D remove, G get, S scan, C checkpoint,          *)
(*   X malformed or unsupported.  A malformed request may be answered by an    *)
(*   error, and may end the connection; it never takes effect.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLES h, i, j, m, over, ok
vars == <<h, i, j, m, over, ok>>
E == H[h]
Own == {E.own[x] : x \in 1..Len(E.own)}

\* ---- the map: own key -> row; a row is a tuple of values, <<>> if the key is absent, 0 the empty value
Put(row, c) ==
  LET W == Max({c[x][1] : x \in 1..Len(c)}) + 1  L == IF Len(row) > W THEN Len(row) ELSE W IN
  [x \in 1..L |-> IF \E y \in 1..Len(c) : c[y][1] = x - 1 THEN (c[CHOOSE y \in 1..Len(c) : c[y][1] = x - 1])[2]
                  ELSE IF x <= Len(row) THEN row[x] ELSE 0]
After(r, s) == CASE r.c = "P" -> [s EXCEPT ![r.k] = Put(@, r.v)]
                 [] r.c = "R" -> [s EXCEPT ![r.k] = <<r.v[1][2]>>]
                 [] r.c = "D" -> [s EXCEPT ![r.k] = <<>>]
                 [] OTHER -> s
\* `got` shows the columns `cols` of the row (all, if none are named); a column the row does not have is empty or nil (-3)
Shows(got, row, cols) ==
  IF Len(cols) = 0 THEN got = row
  ELSE /\ Len(got) = Len(cols)
       /\ \A x \in 1..Len(cols) : IF cols[x] + 1 \in 1..Len(row) THEN got[x] = row[cols[x] + 1] ELSE got[x] \in {0, -3}
\* a scan returns <<key, single, values>>: a row of one value is sent as that value
ScanRight(r, s, L) ==
  LET present == SetToSortSeq({k \in Own : k >= r.k /\ s[k] # <<>>}, <)
      mine == SelectSeq(L, LAMBDA y : y[1] \in Own)
      want == IF Len(L) < r.n THEN present ELSE SelectSeq(present, LAMBDA k : k <= L[Len(L)][1]) IN
  /\ Len(L) <= r.n
  /\ \A x \in 1..Len(L) : L[x][1] >= r.k /\ (x > 1 => L[x - 1][1] < L[x][1])
  /\ Len(mine) = Len(want)
  /\ \A x \in 1..Len(want) : /\ mine[x][1] = want[x] /\ Shows(mine[x][3], s[want[x]], r.v)
                               /\ mine[x][2] = IF Len(mine[x][3]) = 1 THEN 1 ELSE 0
Code(c) == CASE c = "G" -> 3 [] c = "S" -> 5 [] c = "P" -> 7 [] c = "R" -> 9 [] c = "D" -> 11 [] c = "C" -> 13
Right(r, s, p) ==
  /\ p.q = r.q
  /\ p.c = Code(r.c)
  /\ CASE r.c = "G" -> IF s[r.k] = <<>> THEN p.v = <<>> ELSE Shows(p.v, s[r.k], r.v)
       [] r.c = "S" -> ScanRight(r, s, p.v)
       [] r.c \in {"P", "R"} -> p.v = <<IF s[r.k] = <<>> THEN 1 ELSE 2>>
       [] r.c = "D" -> p.v = <<IF s[r.k] = <<>> THEN 0 ELSE 1>>
       [] r.c = "C" -> p.v = <<>>
Error(r, p) == p.c = -1 /\ (p.q = r.q \/ r.q = "") /\ p.v = <<>>

Rows(s) == [x \in 1..Len(E.own) |-> s[E.own[x]]]
\* once the client has stopped reading, some more of its requests may have been served
RECURSIVE Later(_, _)
Later(n, s) == \/ Rows(s) = E.f
               \/ n < Len(E.r) /\ E.r[n + 1].c # "X" /\ Later(n + 1, After(E.r[n + 1], s))
Init == h \in 1..Len(H) /\ i = 0 /\ j = 0 /\ over = FALSE /\ ok = "" /\ m = [k \in {H[h].own[x] : x \in 1..Len(H[h].own)} |-> <<>>]
Serve == /\ ok = "" /\ ~over /\ i < Len(E.r) /\ h' = h
         /\ LET r == E.r[i + 1]  more == j < Len(E.p) IN
            IF r.c # "X" THEN
              IF more THEN /\ i' = i + 1 /\ j' = j + 1 /\ m' = After(r, m) /\ over' = FALSE
                           /\ ok' = IF Right(r, m, E.p[j + 1]) THEN "" ELSE "wrong reply"
              ELSE /\ over' = TRUE /\ UNCHANGED <<i, j, m>> /\ ok' = IF E.cut THEN "" ELSE "no reply to a request"
            ELSE /\ i' = i + 1 /\ m' = m
                 /\ LET err == more /\ Error(r, E.p[j + 1]) IN
                    /\ j' = IF err THEN j + 1 ELSE j
                    /\ over' = (E.o /\ j' = Len(E.p))
                    /\ ok' = IF err \/ over' \/ E.cut \/ E.t = "U" THEN "" ELSE "a malformed request was neither refused nor did it end the connection"
Finish == /\ ok = "" /\ (over \/ i = Len(E.r)) /\ j # -1 /\ UNCHANGED <<h, i, m, over>> /\ j' = -1
          /\ ok' = CASE j < Len(E.p) -> "more replies than requests"
                     [] E.o /\ ~over /\ ~E.cut -> "the connection was closed without cause"
                     [] ~E.cut /\ Rows(m) # E.f -> "final rows differ"
                     [] E.cut /\ ~Later(i, m) -> "final rows differ after a lost connection"
                     [] OTHER -> ""
Next == Serve \/ Finish
Spec == Init /\ [][Next]_vars
Explained == ok = ""
=============================================================================
