----------------------------- MODULE CircTrace ------------------------------
(***************************************************************************)
(* Conformance of circular_int<T> and of the thread timestamp clock.        *)
(* kind "x" (8 bits, all pairs): a, and for every b = 0..255 the vectors of  *)
(*   results.  kind "w" (any width): numbers are little-endian byte lists.   *)
(* kind "t": the thread clock: [t before, x observed, r clock afterwards].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
H == JsonDeserialize(IOEnv.HIST)
VARIABLE h
C == INSTANCE Circular WITH M <- 256, seq <- <<>>

\* ---- arithmetic on byte lists ----
RECURSIVE AddC(_, _, _), SubB(_, _, _)
AddC(a, b, c) == IF a = <<>> THEN <<>> ELSE LET s == a[1] + b[1] + c IN <<s % 256>> \o AddC(Tail(a), Tail(b), s \div 256)
SubB(a, b, c) == IF a = <<>> THEN <<>> ELSE LET s == a[1] - b[1] - c IN <<s % 256>> \o SubB(Tail(a), Tail(b), IF s < 0 THEN 1 ELSE 0)
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == SubB(a, b, 0)
Num(n, k) == [i \in 1..n |-> IF i = 1 THEN k ELSE 0]
Zero(n) == Num(n, 0)
Top(a) == a[Len(a)]
HalfN(n) == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
LessN(a, b) == LET d == Sub(b, a) IN d # Zero(Len(a)) /\ Top(d) < 128
NextNZ(a) == LET s == Add(a, Num(Len(a), 1)) IN IF s = Zero(Len(a)) THEN Num(Len(a), 1) ELSE s
One(n) == Num(n, 1)
B(x) == x = 1
Odd(a) == a[1] % 2 = 1

CheckX(e) == LET a == e.a IN
  /\ \A b \in 0..255 : LET i == b + 1 IN
     /\ B(e.eq[i]) <=> a = b
     /\ B(e.ne[i]) <=> a # b
     /\ C!Ambiguous(256, a, b) \/
        /\ B(e.lt[i]) <=> C!Less(256, a, b)
        /\ B(e.gt[i]) <=> C!Less(256, b, a)
        /\ B(e.le[i]) <=> ~C!Less(256, b, a)
        /\ B(e.ge[i]) <=> ~C!Less(256, a, b)
        /\ B(e.sl[i]) <=> C!Less(256, a, b)
        /\ B(e.sle[i]) <=> ~C!Less(256, b, a)
        /\ e.d[i] = C!Diff(256, a, b)
     /\ e.p[i] = (a + b) % 256 /\ e.pi[i] = (a + b) % 256 /\ e.m[i] = (a - b) % 256 /\ e.mi[i] = (a - b) % 256 /\ e.pn[i] = (a - b) % 256
     /\ e.cx[i] = a /\ e.cr[i] = (IF a = b THEN (a + 1) % 256 ELSE a)
  /\ B(e.t) <=> a # 0
  /\ B(e.f) <=> a = 0
  /\ e.nn = C!NextNonzero(256, a) /\ e.snn = e.nn
  /\ e.nn # 0
  /\ e.inc = <<(a + 1) % 256, (a + 1) % 256>> /\ e.pinc = <<a, (a + 1) % 256>>
  /\ e.dec = <<(a - 1) % 256, (a - 1) % 256>> /\ e.pdec = <<a, (a - 1) % 256>>

CheckW(e) == LET a == e.a b == e.b n == Len(e.a) IN
  /\ B(e.eq) <=> a = b
  /\ B(e.ne) <=> a # b
  /\ Sub(a, b) = HalfN(n) \/
     /\ B(e.lt) <=> LessN(a, b)
     /\ B(e.gt) <=> LessN(b, a)
     /\ B(e.le) <=> ~LessN(b, a)
     /\ B(e.ge) <=> ~LessN(a, b)
     /\ B(e.sl) <=> LessN(a, b)
     /\ B(e.sle) <=> ~LessN(b, a)
  /\ e.d = Sub(a, b)
  /\ e.k = -1 \/ /\ e.p = Add(a, Num(n, e.k)) /\ e.pi = e.p
                 /\ e.m = Sub(a, Num(n, e.k)) /\ e.mi = e.m /\ e.pn = e.m
  /\ e.nn = NextNZ(a) /\ e.snn = e.nn
  /\ e.inc = <<Add(a, One(n)), Add(a, One(n))>> /\ e.pinc = <<a, Add(a, One(n))>>
  /\ e.dec = <<Sub(a, One(n)), Sub(a, One(n))>> /\ e.pdec = <<a, Sub(a, One(n))>>
  /\ B(e.t) <=> a # Zero(n)
  /\ e.cx = a /\ e.cr = (IF a = b THEN Add(a, One(n)) ELSE a)

\* the clock moves forward only, and passes every timestamp it is shown
CheckT(e) == LET d == Sub(e.x, e.t) IN
  d = HalfN(8) \/
  IF e.w = 1 THEN /\ e.r = e.u                                  \* update_timestamp(x)
                  /\ LessN(e.x, e.r) /\ ~LessN(e.r, e.t)
                  /\ ~LessN(e.t, e.x) /\ e.t # e.x => e.r = e.t
             ELSE e.r = (IF LessN(e.t, e.x) THEN e.x ELSE e.t)   \* observe_phantoms
Ok(e) == CASE e.kind = "x" -> CheckX(e) [] e.kind = "w" -> CheckW(e) [] e.kind = "t" -> CheckT(e)
Init == h \in 1..Len(H)
Next == UNCHANGED h
Spec == Init /\ [][Next]_h
Explained == Ok(H[h])
=============================================================================
