----------------------------- MODULE Connection -----------------------------
(***************************************************************************)
(* Design of the server's thread that serves several connections (C17).      *)
(*                                                                          *)
(* A client's requests, of Len bytes each, arrive byte by byte.  The thread    *)
(* waits for connections with data and serves them in turn: it parses what it  *)
(* has, reads more when it has nothing, keeps answers in an output buffer, and *)
(* flushes the buffer before it turns away from a connection or reads.         *)
(*   WaitRest  an incomplete request is waited for (as the server once did)     *)
(*   FlushLast FALSE leaves answers in the buffer when input runs out           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Conns, Len1, N, Cap, OutCap, WaitRest, FlushLast
VARIABLES sent, net, buf, got, done, out, dlv, ready, pc, first
vars == <<sent, net, buf, got, done, out, dlv, ready, pc, first>>
Init == /\ sent = [c \in Conns |-> 0] /\ net = sent /\ buf = sent /\ got = sent /\ done = sent /\ out = sent /\ dlv = sent
        /\ ready = <<>> /\ pc = "wait" /\ first = TRUE
Send(c) == /\ sent[c] < N * Len1 /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ net' = [net EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<buf, got, done, out, dlv, ready, pc, first>>
Readable == {c \in Conns : net[c] > 0}
Orders(S) == {q \in UNION {[1..n -> S] : n \in 1..Cardinality(S)} : \A x, y \in DOMAIN q : q[x] = q[y] => x = y}
Wait == /\ pc = "wait" /\ Readable # {} /\ ready' \in Orders(Readable) /\ pc' = "serve" /\ first' = TRUE
        /\ UNCHANGED <<sent, net, buf, got, done, out, dlv>>
c0 == Head(ready)
Turn(q) == /\ ready' = q /\ pc' = (IF q = <<>> THEN "wait" ELSE "serve") /\ first' = TRUE
\* the bytes at hand complete a request
Answer == /\ pc = "serve" /\ got[c0] + buf[c0] >= Len1
          /\ buf' = [buf EXCEPT ![c0] = @ - (Len1 - got[c0])] /\ got' = [got EXCEPT ![c0] = 0] /\ done' = [done EXCEPT ![c0] = @ + 1]
          /\ LET full == out[c0] + 1 > OutCap  o == IF full THEN 1 ELSE out[c0] + 1  d == IF full THEN dlv[c0] + out[c0] ELSE dlv[c0] IN
             IF buf'[c0] > 0 THEN /\ Turn(Append(Tail(ready), c0)) /\ out' = [out EXCEPT ![c0] = o] /\ dlv' = [dlv EXCEPT ![c0] = d]
             ELSE /\ Turn(Tail(ready))
                  /\ IF FlushLast THEN out' = [out EXCEPT ![c0] = 0] /\ dlv' = [dlv EXCEPT ![c0] = d + o]
                     ELSE out' = [out EXCEPT ![c0] = o] /\ dlv' = [dlv EXCEPT ![c0] = d]
          /\ UNCHANGED <<sent, net>>
\* they don't: read, if there is something to read
Read == /\ pc = "serve" /\ got[c0] + buf[c0] < Len1 /\ net[c0] > 0
        /\ LET n == IF net[c0] < Cap THEN net[c0] ELSE Cap IN \E k \in 1..n :
           /\ buf' = [buf EXCEPT ![c0] = k] /\ net' = [net EXCEPT ![c0] = @ - k] /\ got' = [got EXCEPT ![c0] = @ + buf[c0]]
        /\ IF first THEN out' = [out EXCEPT ![c0] = 0] /\ dlv' = [dlv EXCEPT ![c0] = @ + out[c0]] ELSE UNCHANGED <<out, dlv>>
        /\ first' = FALSE /\ UNCHANGED <<sent, done, ready, pc>>
GiveUp == /\ pc = "serve" /\ got[c0] + buf[c0] < Len1 /\ net[c0] = 0 /\ ~WaitRest
          /\ got' = [got EXCEPT ![c0] = @ + buf[c0]] /\ buf' = [buf EXCEPT ![c0] = 0]
          /\ out' = [out EXCEPT ![c0] = 0] /\ dlv' = [dlv EXCEPT ![c0] = @ + out[c0]] /\ Turn(Tail(ready))
          /\ UNCHANGED <<sent, net, done>>
Server == Wait \/ Answer \/ Read \/ GiveUp
Next == Server \/ \E c \in Conns : Send(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Server)
TypeOK == \A c \in Conns : /\ net[c] + buf[c] + got[c] + done[c] * Len1 = sent[c] /\ got[c] < Len1 /\ out[c] <= OutCap
                           /\ dlv[c] + out[c] = done[c]
Unique == \A x, y \in DOMAIN ready : ready[x] = ready[y] => x = y
Answered == \A c \in Conns : \A k \in 1..N : sent[c] >= k * Len1 ~> dlv[c] >= k
=============================================================================
