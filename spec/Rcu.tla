-------------------------------- MODULE Rcu ---------------------------------
(***************************************************************************)
(* Epoch-based reclamation as in kvthread.{hh,cc}: a global epoch that a     *)
(* ticker advances by 2, an active epoch the ticker derives from the epochs   *)
(* threads published, and per-thread limbo lists of retired objects tagged     *)
(* with the global epoch.  Epochs are taken modulo M and compared circularly,   *)
(* so the state space is finite while the system runs forever.                 *)
(*   Slack = 1 is the code: an object may go once active-1 has reached its tag. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Objs, M, FreeCount, Slack
VARIABLES G, A, gc, pg, limbo, pc, reg, reach, held, freed, tk, todo, low
vars == <<G, A, gc, pg, limbo, pc, reg, reach, held, freed, tk, todo, low>>
Less(a, b) == LET d == (a - b + M) % M IN d >= M \div 2      \* signed(a-b) < 0
Init == /\ G = 1 /\ A = 1 /\ gc = [t \in Threads |-> 0] /\ pg = [t \in Threads |-> 0] /\ limbo = [t \in Threads |-> <<>>]
        /\ pc = [t \in Threads |-> "out"] /\ reg = [t \in Threads |-> 0] /\ reach = Objs /\ held = [t \in Threads |-> {}] /\ freed = {}
        /\ tk = "idle" /\ todo = {} /\ low = 0
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Tk == UNCHANGED <<tk, todo, low>>
\* rcu_start: load the global epoch, then publish it
Start(t) == /\ pc[t] = "out" /\ reg' = [reg EXCEPT ![t] = G] /\ Go(t, "pub") /\ UNCHANGED <<G, A, gc, pg, limbo, reach, held, freed>> /\ Tk
Pub(t) == /\ pc[t] = "pub" /\ gc' = [gc EXCEPT ![t] = reg[t]] /\ Go(t, "in") /\ UNCHANGED <<G, A, pg, limbo, reg, reach, held, freed>> /\ Tk
\* inside a section: find an object that is reachable; unlink one, then retire it
Find(t) == \E o \in reach : pc[t] = "in" /\ o \notin held[t] /\ held' = [held EXCEPT ![t] = @ \union {o}] /\ UNCHANGED <<G, A, gc, pg, limbo, pc, reg, reach, freed>> /\ Tk
Unlink(t) == \E o \in reach : /\ pc[t] = "in" /\ reach' = reach \ {o} /\ pc' = [pc EXCEPT ![t] = o] /\ UNCHANGED <<G, A, gc, pg, limbo, reg, held, freed>> /\ Tk
Retire(t) == /\ pc[t] \in Objs /\ limbo' = [limbo EXCEPT ![t] = Append(@, <<pc[t], G>>)] /\ Go(t, "in") /\ UNCHANGED <<G, A, gc, pg, reg, reach, held, freed>> /\ Tk
\* quiesce: nothing is held any more; publish the current epoch, then collect
Quiesce(t) == /\ pc[t] = "in" /\ held' = [held EXCEPT ![t] = {}] /\ reg' = [reg EXCEPT ![t] = G] /\ Go(t, "qpub") /\ UNCHANGED <<G, A, gc, pg, limbo, reach, freed>> /\ Tk
QPub(t) == /\ pc[t] = "qpub" /\ gc' = [gc EXCEPT ![t] = reg[t]] /\ Go(t, "qload") /\ UNCHANGED <<G, A, pg, limbo, reg, reach, held, freed>> /\ Tk
Stop(t) == /\ pc[t] = "in" /\ held' = [held EXCEPT ![t] = {}] /\ Go(t, "sload") /\ UNCHANGED <<G, A, gc, pg, limbo, reg, reach, freed>> /\ Tk
Load(t) == /\ pc[t] \in {"qload", "sload"} /\ reg' = [reg EXCEPT ![t] = A] /\ Go(t, IF pc[t] = "qload" THEN "qfree" ELSE "sfree") /\ UNCHANGED <<G, A, gc, pg, limbo, reach, held, freed>> /\ Tk
RECURSIVE Take(_, _, _)
Take(s, bound, n) == IF n = 0 \/ s = <<>> THEN 0 ELSE IF Less(bound, s[1][2]) THEN 0 ELSE 1 + Take(Tail(s), bound, n - 1)
Free(t) == /\ pc[t] \in {"qfree", "sfree"}
           /\ LET bound == (reg[t] - Slack + M) % M  n == IF pg[t] = reg[t] THEN 0 ELSE Take(limbo[t], bound, FreeCount) IN
              /\ freed' = freed \union {limbo[t][i][1] : i \in 1..n}
              /\ limbo' = [limbo EXCEPT ![t] = SubSeq(@, n + 1, Len(@))]
              /\ pg' = [pg EXCEPT ![t] = IF @ = reg[t] THEN @ ELSE IF n = FreeCount THEN (reg[t] - 1 + M) % M ELSE reg[t]]
           /\ Go(t, IF pc[t] = "qfree" THEN "in" ELSE "stop") /\ UNCHANGED <<G, A, gc, reg, reach, held>> /\ Tk
Out(t) == /\ pc[t] = "stop" /\ gc' = [gc EXCEPT ![t] = 0] /\ Go(t, "out") /\ UNCHANGED <<G, A, pg, limbo, reg, reach, held, freed>> /\ Tk
\* a freed object may be allocated again and linked
Again == \E o \in freed : /\ freed' = freed \ {o} /\ reach' = reach \union {o} /\ UNCHANGED <<G, A, gc, pg, limbo, pc, reg, held>> /\ Tk
\* the ticker; the epoch does not run ahead of the slowest thread by more than the comparison can express (64 bits in the code)
TickG == /\ tk = "idle" /\ \A t \in Threads : /\ gc[t] # 0 => (G + 2 - gc[t] + M) % M < M \div 2 - 2
                                              /\ pc[t] \in {"pub", "qpub"} => (G + 2 - reg[t] + M) % M < M \div 2 - 2
                                              /\ limbo[t] # <<>> => (G + 2 - limbo[t][1][2] + M) % M < M \div 2 - 2
                                              /\ pc[t] \in {"qfree", "sfree"} => (G + 2 - reg[t] + M) % M < M \div 2 - 2
         /\ (G + 2 - A + M) % M < M \div 2 - 2
         /\ G' = (G + 2) % M /\ tk' = "scan" /\ todo' = Threads /\ low' = (G + 2) % M /\ UNCHANGED <<A, gc, pg, limbo, pc, reg, reach, held, freed>>
Scan == \E t \in todo : /\ tk = "scan" /\ todo' = todo \ {t} /\ low' = (IF gc[t] # 0 /\ Less(gc[t], low) THEN gc[t] ELSE low) /\ UNCHANGED <<G, A, gc, pg, limbo, pc, reg, reach, held, freed, tk>>
SetA == /\ tk = "scan" /\ todo = {} /\ A' = low /\ tk' = "idle" /\ low' = 0 /\ UNCHANGED <<G, gc, pg, limbo, pc, reg, reach, held, freed, todo>>
Step(t) == Start(t) \/ Pub(t) \/ Find(t) \/ Unlink(t) \/ Retire(t) \/ Quiesce(t) \/ QPub(t) \/ Stop(t) \/ Load(t) \/ Free(t) \/ Out(t)
Next == (\E t \in Threads : Step(t)) \/ Again \/ TickG \/ Scan \/ SetA
Must(t) == Start(t) \/ Pub(t) \/ Retire(t) \/ QPub(t) \/ Load(t) \/ Free(t) \/ Out(t)
Fair == /\ SF_vars(TickG) /\ WF_vars(Scan) /\ WF_vars(SetA) /\ \A t \in Threads : WF_vars(Must(t)) /\ SF_vars(Quiesce(t)) 
Spec == Init /\ [][Next]_vars /\ Fair
\* who holds what does not matter for progress
LStep(t) == Start(t) \/ Pub(t) \/ Unlink(t) \/ Retire(t) \/ Quiesce(t) \/ QPub(t) \/ Stop(t) \/ Load(t) \/ Free(t) \/ Out(t)
LFair == /\ SF_vars(TickG) /\ WF_vars(Scan) /\ WF_vars(SetA) /\ \A t \in Threads : WF_vars(Must(t)) /\ SF_vars(Quiesce(t))
LiveSpec == Init /\ [][(\E t \in Threads : LStep(t)) \/ Again \/ TickG \/ Scan \/ SetA]_vars /\ LFair
\* nobody holds memory that has been released or was handed out again
Safe == \A t \in Threads : held[t] \intersect freed = {}
OnceOnly == \A t, u \in Threads : \A i \in 1..Len(limbo[t]), j \in 1..Len(limbo[u]) : limbo[t][i][1] = limbo[u][j][1] => t = u /\ i = j
Sorted == \A t \in Threads : \A i \in 1..(Len(limbo[t]) - 1) : ~Less(limbo[t][i + 1][2], limbo[t][i][2])
\* epochs only matter relative to each other (the system is symmetric under shifting all of them)
Rel(x) == (x - G + M) % M
View == <<Rel(A), [t \in Threads |-> IF gc[t] = 0 THEN -1 ELSE Rel(gc[t])], [t \in Threads |-> IF pg[t] = A THEN 0 ELSE 1 + Rel(pg[t])],
          [t \in Threads |-> [i \in 1..Len(limbo[t]) |-> <<limbo[t][i][1], Rel(limbo[t][i][2])>>]], pc,
          [t \in Threads |-> IF pc[t] \in {"pub", "qpub", "qfree", "sfree"} THEN Rel(reg[t]) ELSE -1], reach, held, freed, tk, todo, IF tk = "scan" THEN Rel(low) ELSE -1>>
\* everything retired is released eventually
Drains == \A o \in Objs : (o \notin reach) ~> (o \in freed \/ o \in reach)
=============================================================================
