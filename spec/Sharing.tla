------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* How Strings and StringAccums share storage: the design behind Values.    *)
(* A buffer has a number of users, a capacity, its bytes, and a mark,       *)
(* `dirty`, past which no String has ever looked: a String that ends at the *)
(* mark may be extended in place although others share its buffer.  An      *)
(* accumulator owns its buffer alone and writes anywhere in it.  `ghost`    *)
(* holds what every variable should contain.  The BOOLEAN constants turn    *)
(* the design's precautions off.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Strs, Accs, Bufs, Cap, Chars, MaxOps,
          AtMark,      \* extend in place only a String that ends at the mark
          Alone,       \* write in place, or give a buffer away, only when its one user does
          FromStart    \* an accumulator takes a buffer over only from its first byte
VARIABLES str, acc, buf, ghost, ops
vars == <<str, acc, buf, ghost, ops>>
None == "none"
NoStr == [b |-> None, off |-> 0, len |-> 0]
NoBuf == [rc |-> 0, dirty |-> 0, data |-> <<>>]
View(b, off, len) == IF b = None THEN <<>> ELSE SubSeq(buf[b].data, off + 1, off + len)
Blank(n) == [i \in 1..n |-> 0]
Pad(d) == d \o Blank(Cap - Len(d))
Init == /\ str = [x \in Strs |-> NoStr] /\ acc = [x \in Accs |-> NoStr]
        /\ buf = [b \in Bufs |-> NoBuf] /\ ghost = [x \in Strs \cup Accs |-> <<>>] /\ ops = 0
Free == {b \in Bufs : buf[b].rc = 0}
(* the buffers once one user of b is gone *)
Left(bf, b) == IF b = None THEN bf ELSE [bf EXCEPT ![b] = IF @.rc = 1 THEN NoBuf ELSE [@ EXCEPT !.rc = @ - 1]]
Made(bf, b, d) == [bf EXCEPT ![b] = [rc |-> 1, dirty |-> Len(d), data |-> Pad(d)]]
G(x, d) == ghost' = [ghost EXCEPT ![x] = d]
(* x becomes a String with a buffer of its own containing d *)
Fresh(x, d) == IF d = <<>> THEN /\ buf' = Left(buf, str[x].b) /\ str' = [str EXCEPT ![x] = NoStr]
               ELSE \E b \in Free : /\ buf' = Made(Left(buf, str[x].b), b, d) /\ str' = [str EXCEPT ![x] = [b |-> b, off |-> 0, len |-> Len(d)]]
New(x) == \E d \in {<<>>} \cup {<<c>> : c \in Chars} \cup {<<c, c>> : c \in Chars} : Fresh(x, d) /\ G(x, d) /\ UNCHANGED acc
(* a piece of y *)
Piece(x, y) == \E i \in 0..str[y].len : \E j \in i..str[y].len :
  LET y0 == str[y] g == SubSeq(ghost[y], i + 1, j)
      n == IF j = i THEN NoStr ELSE [b |-> y0.b, off |-> y0.off + i, len |-> j - i] IN
  /\ buf' = Left([b \in Bufs |-> IF b = n.b THEN [buf[b] EXCEPT !.rc = @ + 1] ELSE buf[b]], str[x].b)
  /\ str' = [str EXCEPT ![x] = n] /\ G(x, g) /\ UNCHANGED acc
Append1(x) == \E c \in Chars :
  LET r == str[x] e == r.off + r.len g == Append(ghost[x], c) IN
  /\ r.len < Cap - 1 /\ G(x, g) /\ UNCHANGED acc
  /\ IF r.b # None /\ buf[r.b].dirty + 1 < Cap /\ (e = buf[r.b].dirty \/ ~AtMark)
     THEN /\ buf' = [buf EXCEPT ![r.b].data[e + 1] = c, ![r.b].dirty = IF e + 1 > @ THEN e + 1 ELSE @]
          /\ str' = [str EXCEPT ![x].len = @ + 1]
     ELSE \E b \in Free : /\ buf' = Left(Made(buf, b, Append(View(r.b, r.off, r.len), c)), r.b)
                          /\ str' = [str EXCEPT ![x] = [b |-> b, off |-> 0, len |-> r.len + 1]]
(* c_str(): a NUL after the text, without becoming part of it *)
Terminate(x) ==
  LET r == str[x] e == r.off + r.len IN
  /\ r.b # None /\ UNCHANGED <<acc, ghost>>
  /\ IF e < buf[r.b].dirty /\ buf[r.b].data[e + 1] = 0 THEN UNCHANGED <<str, buf>>
     ELSE IF buf[r.b].dirty + 1 < Cap /\ (e = buf[r.b].dirty \/ ~AtMark)
     THEN /\ buf' = [buf EXCEPT ![r.b].data[e + 1] = 0, ![r.b].dirty = IF e + 1 > @ THEN e + 1 ELSE @] /\ UNCHANGED str
     ELSE \E b \in Free : /\ r.len < Cap - 1
                          /\ buf' = Left(Made(buf, b, Append(View(r.b, r.off, r.len), 0)), r.b)
                          /\ str' = [str EXCEPT ![x] = [b |-> b, off |-> 0, len |-> r.len]]
Write(x) == \E i \in 1..str[x].len : \E c \in Chars :
  LET r == str[x] d == [ghost[x] EXCEPT ![i] = c] IN
  /\ G(x, d) /\ UNCHANGED acc
  /\ IF buf[r.b].rc = 1 \/ ~Alone THEN buf' = [buf EXCEPT ![r.b].data[r.off + i] = c] /\ UNCHANGED str
     ELSE \E b \in Free : /\ buf' = Left(Made(buf, b, [View(r.b, r.off, r.len) EXCEPT ![i] = c]), r.b)
                          /\ str' = [str EXCEPT ![x] = [b |-> b, off |-> 0, len |-> r.len]]
(* accumulators *)
AccAppend(a) == \E c \in Chars :
  LET r == acc[a] IN /\ r.len < Cap - 1 /\ G(a, Append(ghost[a], c)) /\ UNCHANGED str
  /\ IF r.b # None THEN buf' = [buf EXCEPT ![r.b].data[r.len + 1] = c] /\ acc' = [acc EXCEPT ![a].len = @ + 1]
     ELSE \E b \in Free : buf' = [buf EXCEPT ![b] = [rc |-> 1, dirty |-> 0, data |-> Pad(<<c>>)]] /\ acc' = [acc EXCEPT ![a] = [b |-> b, off |-> 0, len |-> 1]]
AccCut(a) == acc[a].len > 0 /\ acc' = [acc EXCEPT ![a].len = @ - 1] /\ G(a, SubSeq(ghost[a], 1, Len(ghost[a]) - 1)) /\ UNCHANGED <<str, buf>>
(* take_string: the String gets the buffer, its mark at the end of the text *)
Take(x, a) ==
  LET r == acc[a] o == str[x].b IN
  /\ acc' = [acc EXCEPT ![a] = IF r.len > 0 THEN NoStr ELSE r] /\ ghost' = [ghost EXCEPT ![x] = ghost[a], ![a] = <<>>]
  /\ IF r.len > 0 THEN buf' = Left([buf EXCEPT ![r.b].dirty = r.len], o) /\ str' = [str EXCEPT ![x] = [b |-> r.b, off |-> 0, len |-> r.len]]
     ELSE buf' = Left(buf, o) /\ str' = [str EXCEPT ![x] = NoStr]
(* an accumulator is made of a String: its buffer if that can be had, else a copy *)
Give(a, x) ==
  LET r == str[x] o == acc[a].b IN
  /\ r.b # None /\ str' = [str EXCEPT ![x] = NoStr] /\ ghost' = [ghost EXCEPT ![a] = ghost[x], ![x] = <<>>]
  /\ IF (buf[r.b].rc = 1 \/ ~Alone) /\ (r.off = 0 \/ ~FromStart)
     THEN buf' = Left(buf, o) /\ acc' = [acc EXCEPT ![a] = [b |-> r.b, off |-> 0, len |-> r.len]]
     ELSE \E b \in Free : buf' = Left(Left(Made(buf, b, View(r.b, r.off, r.len)), r.b), o) /\ acc' = [acc EXCEPT ![a] = [b |-> b, off |-> 0, len |-> r.len]]
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E x \in Strs : New(x) \/ Append1(x) \/ Terminate(x) \/ Write(x) \/ \E y \in Strs : Piece(x, y)
           \/ \E a \in Accs : AccAppend(a) \/ AccCut(a) \/ \E x \in Strs : Take(x, a) \/ Give(a, x)
Spec == Init /\ [][Next]_vars
Users(b) == Cardinality({x \in Strs : str[x].b = b}) + Cardinality({a \in Accs : acc[a].b = b})
(* every variable contains what it should, whatever was done to the others *)
Separate == /\ \A x \in Strs : View(str[x].b, str[x].off, str[x].len) = ghost[x]
            /\ \A a \in Accs : View(acc[a].b, 0, acc[a].len) = ghost[a]
(* a buffer lives as long as it has users, and its mark is past all Strings *)
Counted == \A b \in Bufs : buf[b].rc = Users(b)
Marked == \A x \in Strs : str[x].b # None => str[x].off + str[x].len <= buf[str[x].b].dirty
=============================================================================
