------------------------------ MODULE LeafLink ------------------------------
(***************************************************************************)
(* The doubly linked list of leaves.  A leaf is linked in at the right of a   *)
(* locked leaf (split) or unlinked while locked; its next pointer carries a    *)
(* mark that locks the pointer itself.  Readers follow next pointers.          *)
(* One action per shared access of btree_leaflink.hh; 0 is the null pointer.   *)
(* PublishFirst = FALSE is the order the code used to have: Unreachable fails.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Reader, N0, NMax, MaxOps, PublishFirst
Nodes == 1..NMax
VARIABLES nxt, mk, prv, lock, live, ord, used, pc, n, nr, nx, pv, ops, cur, must, vis
vars == <<nxt, mk, prv, lock, live, ord, used, pc, n, nr, nx, pv, ops, cur, must, vis>>
Init == /\ nxt = [x \in Nodes |-> IF x < N0 THEN x + 1 ELSE 0] /\ mk = [x \in Nodes |-> FALSE]
        /\ prv = [x \in Nodes |-> IF x <= N0 THEN x - 1 ELSE 0] /\ lock = [x \in Nodes |-> FALSE]
        /\ live = 1..N0 /\ ord = [i \in 1..N0 |-> i] /\ used = N0
        /\ pc = [t \in Threads |-> "idle"] /\ n = [t \in Threads |-> 0] /\ nr = [t \in Threads |-> 0]
        /\ nx = [t \in Threads |-> 0] /\ pv = [t \in Threads |-> 0] /\ ops = 0
        /\ cur = 0 /\ must = {} /\ vis = {}
Pos(x) == CHOOSE i \in 1..Len(ord) : ord[i] = x
InsertAfter(s, x, y) == LET i == CHOOSE j \in 1..Len(s) : s[j] = x IN SubSeq(s, 1, i) \o <<y>> \o SubSeq(s, i + 1, Len(s))
To(t, s) == pc' = [pc EXCEPT ![t] = s]
Ghost == UNCHANGED <<ops, cur, vis>>

\* ---- split: a new leaf nr at the right of n ----
StartSplit(t) == \E x \in live :
   /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ used < NMax /\ ~lock[x]
   /\ lock' = [lock EXCEPT ![x] = TRUE] /\ used' = used + 1
   /\ n' = [n EXCEPT ![t] = x] /\ nr' = [nr EXCEPT ![t] = used + 1]
   /\ prv' = [prv EXCEPT ![used + 1] = x]                                     \* nr->prev_ = n
   /\ ord' = InsertAfter(ord, x, used + 1) /\ To(t, "s.lock")
   /\ UNCHANGED <<nxt, mk, live, nx, pv, cur, must, vis>>
\* ---- unlink n ----
StartUnlink(t) == \E x \in live \ {1} :
   /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ ~lock[x]
   /\ lock' = [lock EXCEPT ![x] = TRUE] /\ n' = [n EXCEPT ![t] = x] /\ live' = live \ {x} /\ must' = must \ {x} /\ To(t, "u.lock")
   /\ UNCHANGED <<nxt, mk, prv, ord, used, nr, nx, pv, cur, vis>>
\* lock_next: a null pointer needs no mark; a compare-and-swap of an unmarked one
LockNext(t) == LET x == n[t] s == pc[t] IN
   /\ s \in {"s.lock", "u.lock"} /\ ~mk[x]
   /\ nx' = [nx EXCEPT ![t] = nxt[x]] /\ mk' = [mk EXCEPT ![x] = nxt[x] # 0]
   /\ To(t, IF s = "s.lock" THEN "s.next" ELSE "u.prev") /\ Ghost
   /\ UNCHANGED <<nxt, prv, lock, live, ord, used, n, nr, pv, must>>
SNext(t) == /\ pc[t] = "s.next" /\ nxt' = [nxt EXCEPT ![nr[t]] = nx[t]] /\ To(t, IF nx[t] = 0 THEN "s.link" ELSE IF PublishFirst THEN "s.pub" ELSE "s.prev") /\ Ghost
            /\ UNCHANGED <<mk, prv, lock, live, ord, used, n, nr, nx, pv, must>>
\* the new leaf becomes reachable, the pointer to it still marked, before its right neighbour can be unlinked through it
SPub(t) == /\ pc[t] = "s.pub" /\ nxt' = [nxt EXCEPT ![n[t]] = nr[t]] /\ To(t, "s.prev") /\ Ghost
           /\ UNCHANGED <<mk, prv, lock, live, ord, used, n, nr, nx, pv, must>>
SPrev(t) == /\ pc[t] = "s.prev" /\ prv' = [prv EXCEPT ![nx[t]] = nr[t]] /\ To(t, "s.link") /\ Ghost
            /\ UNCHANGED <<nxt, mk, lock, live, ord, used, n, nr, nx, pv, must>>
SLink(t) == /\ pc[t] = "s.link" /\ nxt' = [nxt EXCEPT ![n[t]] = nr[t]] /\ mk' = [mk EXCEPT ![n[t]] = FALSE] /\ To(t, "unlock") /\ Ghost
            /\ live' = live \union {nr[t]} /\ UNCHANGED <<prv, lock, ord, used, n, nr, nx, pv, must>>
UPrev(t) == /\ pc[t] = "u.prev" /\ pv' = [pv EXCEPT ![t] = prv[n[t]]] /\ To(t, "u.cas") /\ Ghost
            /\ UNCHANGED <<nxt, mk, prv, lock, live, ord, used, n, nr, nx, must>>
UCas(t) == LET p == pv[t] x == n[t] IN
           /\ pc[t] = "u.cas" /\ Ghost
           /\ IF p # 0 /\ nxt[p] = x /\ ~mk[p] THEN mk' = [mk EXCEPT ![p] = TRUE] /\ To(t, IF nx[t] = 0 THEN "u.link" ELSE "u.back")
              ELSE To(t, "u.prev") /\ UNCHANGED mk
           /\ UNCHANGED <<nxt, prv, lock, live, ord, used, n, nr, nx, pv, must>>
UBack(t) == /\ pc[t] = "u.back" /\ prv' = [prv EXCEPT ![nx[t]] = pv[t]] /\ To(t, "u.link") /\ Ghost
            /\ UNCHANGED <<nxt, mk, lock, live, ord, used, n, nr, nx, pv, must>>
ULink(t) == /\ pc[t] = "u.link" /\ nxt' = [nxt EXCEPT ![pv[t]] = nx[t]] /\ mk' = [mk EXCEPT ![pv[t]] = FALSE] /\ To(t, "dead") /\ Ghost
            /\ UNCHANGED <<prv, lock, live, ord, used, n, nr, nx, pv, must>>
\* a dead leaf is never locked again
Unlock(t) == /\ pc[t] \in {"unlock", "dead"} /\ lock' = [lock EXCEPT ![n[t]] = pc[t] = "dead"] /\ To(t, "idle") /\ Ghost
             /\ UNCHANGED <<nxt, mk, prv, live, ord, used, n, nr, nx, pv, must>>
\* ---- a reader walking forwards from the first leaf ----
Linked == {x \in live : \A t \in Threads : ~(pc[t] \in {"s.lock", "s.next", "s.pub", "s.prev", "s.link"} /\ nr[t] = x)}
RStart == /\ Reader /\ cur = 0 /\ vis = {} /\ cur' = 1 /\ vis' = {1} /\ must' = Linked /\ UNCHANGED <<nxt, mk, prv, lock, live, ord, used, pc, n, nr, nx, pv, ops>>
RStep == /\ cur # 0 /\ cur' = nxt[cur] /\ vis' = (vis \union {nxt[cur]}) \ {0} /\ UNCHANGED <<nxt, mk, prv, lock, live, ord, used, pc, n, nr, nx, pv, ops, must>>
Next == \/ \E t \in Threads : StartSplit(t) \/ StartUnlink(t) \/ LockNext(t) \/ SNext(t) \/ SPub(t) \/ SPrev(t) \/ SLink(t) \/ UPrev(t) \/ UCas(t) \/ UBack(t) \/ ULink(t) \/ Unlock(t)
        \/ RStart \/ RStep
Fair == \A t \in Threads : WF_vars(LockNext(t) \/ SNext(t) \/ SPub(t) \/ SPrev(t) \/ SLink(t) \/ UPrev(t) \/ UCas(t) \/ UBack(t) \/ ULink(t) \/ Unlock(t))
Spec == Init /\ [][Next]_vars /\ Fair

Quiet == \A t \in Threads : pc[t] = "idle"
LiveSeq == SelectSeq(ord, LAMBDA x : x \in live)
RECURSIVE Walk(_, _, _)
Walk(x, f, k) == IF x = 0 \/ k = 0 THEN <<>> ELSE <<x>> \o Walk(f[x], f, k - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Consistent == Quiet => /\ Walk(1, nxt, NMax + 1) = LiveSeq
                       /\ Walk(LiveSeq[Len(LiveSeq)], prv, NMax + 1) = Rev(LiveSeq)
                       /\ \A x \in live : ~mk[x] /\ ~lock[x]
\* a leaf whose unlinking is over cannot be reached by a reader that starts now
Gone == {x \in 1..used : x \notin live /\ \A t \in Threads : n[t] = x => pc[t] \in {"idle", "dead"}}
                    \ {nr[t] : t \in {u \in Threads : pc[u] \in {"s.lock", "s.next", "s.pub", "s.prev", "s.link"}}}
Unreachable == LET w == Walk(1, nxt, 2 * NMax) IN \A i \in 1..Len(w) : w[i] \notin Gone
NoSkip == vis # {} => \A m \in must : (cur = 0 \/ Pos(m) <= Pos(cur)) => m \in vis
Forward == [][cur # 0 /\ cur' # 0 /\ cur # cur' => Pos(cur) < (CHOOSE i \in 1..Len(ord') : ord'[i] = cur')]_vars
Finish == \A t \in Threads : []<>(pc[t] = "idle")
=============================================================================
