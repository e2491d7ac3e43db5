------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Replaying the log records of one key in any order.                        *)
(*                                                                          *)
(* A history of updates to the key is made first (`Do`): every update has a    *)
(* timestamp and is logged with the timestamp of the row it found.  A put over  *)
(* an existing row is logged as a modification: only its columns are known      *)
(* from the record.  A checkpoint may hold the row of any moment `cn`; then the  *)
(* records from some `first` <= cn + 1 on are replayed.  Different logs are       *)
(* replayed at the same time, so records meet the row in any order (`Apply`).    *)
(* The row meanwhile is a chain of not yet applicable modifications (delta       *)
(* markers) by falling timestamp, ending in a value, a remove marker or nothing.  *)
(*                                                                          *)
(* Agree: when all records have been applied, the row is that of the last         *)
(* update, with its timestamp, and no delta marker is left.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxOps, Cols,
          PlainRemove,  \* a logged remove is replayed as a changeset (as it once was)
          NoMerge,      \* deltas are not merged into a row that appears under them
          IgnoreOld     \* TRUE: records older than the row are skipped
VARIABLES hist, ck, chain, todo, phase
vars == <<hist, ck, chain, todo, phase>>
Vals == 0..MaxOps
Empty == [c \in Cols |-> 0]
\* what the table holds after n updates: [there, ts, row]
Nothing == [kind |-> "none", ts |-> 0, row |-> Empty]
After(n) == IF n = 0 THEN Nothing ELSE hist[n].after
Rec(n) == hist[n]
Init == hist = <<>> /\ ck = 0 /\ chain = <<>> /\ todo = {} /\ phase = "do"
Do(o, cs) ==
  LET n == Len(hist) + 1  old == After(n - 1)  there == old.kind = "value"
      new == CASE o = "put" -> [kind |-> "value", ts |-> 2 * n, row |-> [c \in Cols |-> IF c \in cs THEN n ELSE IF there THEN old.row[c] ELSE 0]]
               [] o = "replace" -> [kind |-> "value", ts |-> 2 * n, row |-> [c \in Cols |-> IF c = CHOOSE x \in Cols : \A y \in Cols : x <= y THEN n ELSE 0]]
               [] o = "remove" -> [kind |-> "gone", ts |-> 2 * n + 1, row |-> Empty] IN
  /\ phase = "do" /\ n <= MaxOps /\ (o = "remove" => there)
  /\ hist' = Append(hist, [cmd |-> IF o = "put" /\ there THEN "modify" ELSE o, ts |-> 2 * n, prev |-> old.ts, cols |-> cs, val |-> n, after |-> new])
  /\ UNCHANGED <<ck, chain, todo, phase>>
Crash == /\ phase = "do" /\ phase' = "replay"
         /\ \E cn \in 0..Len(hist) : \E first \in 1..(cn + 1) :
              /\ cn = 0 => first = 1
              /\ ck' = cn /\ todo' = first..Len(hist)
              /\ chain' = IF After(cn).kind = "value" THEN <<After(cn)>> ELSE <<>>
         /\ UNCHANGED hist
\* chain: the newest entry first; only the last one may be something else than a delta
Delta(x) == x.kind = "delta"
RECURSIVE Merge(_)
Merge(ch) == \* the lowest delta over a row of the timestamp it was made for is applied to it
  IF NoMerge \/ Len(ch) < 2 \/ Delta(ch[Len(ch)]) THEN ch
  ELSE LET d == ch[Len(ch) - 1]  r == ch[Len(ch)] IN
       IF d.prev = r.ts
       THEN Merge(Append(SubSeq(ch, 1, Len(ch) - 2), [kind |-> "value", ts |-> d.ts, row |-> [c \in Cols |-> IF c \in d.cols THEN d.val ELSE r.row[c]]]))
       ELSE ch
Applied(ch, r) ==
  LET ts == IF r.cmd = "remove" THEN r.ts + 1 ELSE r.ts
      above == {i \in 1..Len(ch) : Delta(ch[i]) /\ ch[i].ts > ts}
      k == Cardinality(above)                       \* the entries the change stays under
      top == SubSeq(ch, 1, k)  rest == SubSeq(ch, k + 1, Len(ch)) IN
  IF IgnoreOld /\ rest # <<>> /\ rest[1].ts >= ts THEN ch
  ELSE LET new == CASE r.cmd = "remove" -> <<IF PlainRemove THEN [kind |-> "value", ts |-> ts, row |-> Empty] ELSE [kind |-> "gone", ts |-> ts, row |-> Empty]>>
                    [] r.cmd \in {"put", "replace"} -> <<[kind |-> "value", ts |-> ts, row |-> After(r.val).row]>>
                    [] r.cmd = "modify" -> IF rest # <<>> /\ ~Delta(rest[1]) /\ rest[1].ts = r.prev
                                           THEN <<[kind |-> "value", ts |-> ts, row |-> [c \in Cols |-> IF c \in r.cols THEN r.val ELSE rest[1].row[c]]]>>
                                           ELSE <<[kind |-> "delta", ts |-> ts, prev |-> r.prev, cols |-> r.cols, val |-> r.val]>> \o rest IN
       Merge(top \o new)
Apply(n) == /\ phase = "replay" /\ n \in todo /\ todo' = todo \ {n} /\ chain' = Applied(chain, Rec(n)) /\ UNCHANGED <<hist, ck, phase>>
Next == (\E cs \in (SUBSET Cols) \ {{}} : Do("put", cs)) \/ Do("replace", {}) \/ Do("remove", {}) \/ Crash \/ (\E n \in todo : Apply(n))
Spec == Init /\ [][Next]_vars
Ordered == \A i \in 1..Len(chain) : (i < Len(chain) => Delta(chain[i]) /\ chain[i].ts > chain[i + 1].ts)
Final == After(Len(hist))
Agree == phase = "replay" /\ todo = {} =>
  CASE Final.kind = "value" -> chain = <<Final>>
    [] OTHER -> chain = <<>> \/ (Len(chain) = 1 /\ chain[1].kind = "gone")
=============================================================================
