---------------------------- MODULE TreeSharing ----------------------------
(***************************************************************************)
(* How Jsons share arrays and objects: the other half of the design behind  *)
(* Values.  A variable or an element is a scalar or refers to a node; a     *)
(* node counts what refers to it.  Copying a value copies the reference; a  *)
(* change first makes every shared node on its way into a copy of its own   *)
(* (one level: the elements become shared in turn).  `ghost` holds what     *)
(* every variable should contain.  The BOOLEAN constants turn the design's  *)
(* precautions off.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Vars, Nodes, MaxOps,
          Unique,      \* copy shared nodes before changing them
          Recount,     \* a copied node's elements count the copy
          Hold         \* keep the value to be stored safe while the place is made ready
VARIABLES val, heap, ghost, ops
vars == <<val, heap, ghost, ops>>
Slots == 1..2
IsNode(x) == x \in Nodes
Zero == <<"s", 0>>
Scalars == {Zero, <<"s", 1>>}
Scalar(x) == ~IsNode(x) /\ x[1] = "s"
Dead == [rc |-> 0, el |-> <<Zero, Zero>>]
Init == val = [v \in Vars |-> Zero] /\ heap = [n \in Nodes |-> Dead] /\ ghost = [v \in Vars |-> Zero] /\ ops = 0
Ref(h, x) == IF IsNode(x) THEN [h EXCEPT ![x].rc = @ + 1] ELSE h
RECURSIVE Deref(_, _)
Deref(h, x) == IF ~IsNode(x) THEN h
               ELSE IF h[x].rc # 1 THEN [h EXCEPT ![x].rc = @ - 1]
               ELSE Deref(Deref([h EXCEPT ![x] = Dead], h[x].el[1]), h[x].el[2])
FreeNodes(h) == {n \in Nodes : h[n].rc = 0}
Alloc(h) == CHOOSE n \in FreeNodes(h) : TRUE
(* x made into a node that only this place refers to: <<heap, node>> *)
Own(h, x) ==
  IF ~IsNode(x) THEN LET n == Alloc(h) IN <<[h EXCEPT ![n] = [rc |-> 1, el |-> <<Zero, Zero>>]], n>>
  ELSE IF h[x].rc = 1 \/ ~Unique THEN <<h, x>>
  ELSE LET n == Alloc(h) e == h[x].el
           h1 == [h EXCEPT ![n] = [rc |-> 1, el |-> e], ![x].rc = @ - 1] IN
       <<IF Recount THEN Ref(Ref(h1, e[1]), e[2]) ELSE h1, n>>
RECURSIVE Store(_, _, _, _)
Store(h, x, p, y) ==
  IF p = <<>> THEN <<Deref(IF Hold THEN h ELSE Ref(h, y), x), y>>
  ELSE LET o == Own(h, x) n == o[2] r == Store(o[1], o[1][n].el[Head(p)], Tail(p), y) IN
       <<[r[1] EXCEPT ![n].el[Head(p)] = r[2]], n>>
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE IF IsNode(x) THEN At(heap[x].el[Head(p)], Tail(p)) ELSE Zero
(* the same on values *)
RECURSIVE GAt(_, _)
GAt(g, p) == IF p = <<>> THEN g ELSE IF Scalar(g) THEN Zero ELSE GAt(g[Head(p) + 1], Tail(p))
RECURSIVE GStore(_, _, _)
GStore(g, p, y) == IF p = <<>> THEN y ELSE LET e == IF Scalar(g) THEN <<"a", Zero, Zero>> ELSE g IN [e EXCEPT ![Head(p) + 1] = GStore(@, Tail(p), y)]
Paths == UNION {[1..n -> Slots] : n \in 0..2}
Room == Cardinality(FreeNodes(heap)) >= 3
Assign(v, p, x, g) == LET r == Store(IF Hold THEN Ref(heap, x) ELSE heap, val[v], p, x) IN
  /\ heap' = r[1] /\ val' = [val EXCEPT ![v] = r[2]] /\ ghost' = [ghost EXCEPT ![v] = GStore(@, p, g)]
Next == /\ ops < MaxOps /\ ops' = ops + 1 /\ Room
        /\ \E v \in Vars : \E p \in Paths :
             \/ \E c \in Scalars : Assign(v, p, c, c)
             \/ \E w \in Vars : \E q \in Paths : Assign(v, p, At(val[w], q), GAt(ghost[w], q))
Spec == Init /\ [][Next]_vars
Same(x, g) == LET RECURSIVE S(_, _)
                  S(a, b) == IF Scalar(b) THEN a = b ELSE IsNode(a) /\ S(heap[a].el[1], b[2]) /\ S(heap[a].el[2], b[3]) IN S(x, g)
Separate == \A v \in Vars : Same(val[v], ghost[v])
Users(n) == Cardinality({v \in Vars : val[v] = n}) + Cardinality({<<m, i>> \in Nodes \X Slots : heap[m].rc > 0 /\ heap[m].el[i] = n})
Counted == \A n \in Nodes : heap[n].rc = Users(n)
=============================================================================
