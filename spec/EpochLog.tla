------------------------------ MODULE EpochLog ------------------------------
(***************************************************************************)
(* Design of group commit over several logs: epochs, quiescence and wake-up    *)
(* records, checkpoints, and recovery from any crash, including crashes in     *)
(* recovery.                                                                  *)
(*                                                                          *)
(* Every update goes to one key, as a modification of what it found, so a      *)
(* recovered set of updates is sound iff it is a prefix of the order in which  *)
(* they were published.  `Begin` is the critical section of an update: the      *)
(* log's lock is taken, the epoch is read, and the new row published; `Record`  *)
(* appends the log record, releases the lock and answers the client.           *)
(* A log's thread takes the buffer (`Swap`), then `Sync`s it.  A crash keeps     *)
(* what was synced, and any number of the records that were being written.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Logs, MaxEpoch, MaxOps, MaxCrash, Ckpts,
          RecordWake,   \* a log thread that has seen a wake-up still leaves the wake record to the next update
          EarlyWake,    \* an update wakes the log before it publishes the row
          StartRecord,  \* logs are marked idle on disk before clients are served
          FreshEpoch,   \* recovery continues with an epoch beyond all that are in any log
          RaiseWake,    \* a wake record logged in a later epoch announces that epoch
          Barrier,      \* a checkpoint passes every log's lock after it has read its first epoch
          CommitCheck,  \* checkpoints are committed under the logs' locks
          Clamp         \* recovery replays at least what the checkpoint's commit vouches for
Max2(a, b) == IF a > b THEN a ELSE b
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
VARIABLES ge, gw, mem, inflight, disk, logEpoch, quiet, wake, flushed, xEpoch, holder, hist, answered, base, up, started, crashes, ck, ckDisk, broken
vars == <<ge, gw, mem, inflight, disk, logEpoch, quiet, wake, flushed, xEpoch, holder, hist, answered, base, up, started, crashes, ck, ckDisk, broken>>
lvars == <<mem, inflight, disk, logEpoch, quiet, wake, flushed, xEpoch, holder>>
None == 0
E(e) == <<"E", e>>   W == <<"W", 0>>   Q == <<"Q", 0>>   O(op) == <<"O", op>>
NoCk == [st |-> "no", min |-> 0, max |-> 0, ops |-> {}, pass |-> {}]
TypeOK == /\ ge \in 0..(MaxEpoch + 3) /\ gw \in 0..MaxEpoch /\ up \in {"serve", "start", "recover", "dead"}
FreshLog == [l \in Logs |-> 0]
Init == /\ ge = 1 /\ gw = 0 /\ mem = [l \in Logs |-> <<>>] /\ inflight = [l \in Logs |-> <<>>] /\ disk = [l \in Logs |-> <<>>]
        /\ logEpoch = FreshLog /\ quiet = FreshLog /\ wake = FreshLog /\ flushed = FreshLog /\ xEpoch = FreshLog /\ holder = FreshLog
        /\ hist = <<>> /\ answered = {} /\ base = {} /\ up = (IF StartRecord THEN "start" ELSE "serve") /\ started = {} /\ crashes = 0
        /\ ck = NoCk /\ ckDisk = NoCk /\ broken = ""

\* ------------------------------------------------------------- serving ---
Tick == up = "serve" /\ ge < MaxEpoch /\ ge' = ge + 1 /\ UNCHANGED <<gw, lvars, hist, answered, base, up, started, crashes, ck, ckDisk, broken>>
DoWake(l, e) == IF quiet[l] # 0
                THEN /\ flushed' = [flushed EXCEPT ![l] = IF @ = quiet[l] THEN e ELSE @] /\ quiet' = [quiet EXCEPT ![l] = 0] /\ gw' = Max2(gw, e)
                ELSE UNCHANGED <<flushed, quiet, gw>>
Begin(l) == /\ up = "serve" /\ holder[l] = None /\ Len(hist) < MaxOps
            /\ LET op == Len(hist) + 1 IN
               /\ hist' = Append(hist, [log |-> l, ep |-> ge]) /\ holder' = [holder EXCEPT ![l] = op]
               /\ IF EarlyWake THEN DoWake(l, ge) ELSE UNCHANGED <<flushed, quiet, gw>>
            /\ UNCHANGED <<ge, mem, inflight, disk, logEpoch, wake, xEpoch, answered, base, up, started, crashes, ck, ckDisk, broken>>
Record(l) == /\ up = "serve" /\ holder[l] # None
             /\ LET op == holder[l]  e == hist[op].ep
                    m1 == IF e # logEpoch[l] THEN <<E(e)>> ELSE <<>>
                    gw1 == IF EarlyWake \/ quiet[l] = 0 THEN gw ELSE Max2(gw, e)
                    we == IF gw1 # wake[l] /\ (e < gw1 \/ RaiseWake) THEN e ELSE gw1
                    m2 == IF we # wake[l] THEN <<W>> ELSE <<>> IN
                /\ mem' = [mem EXCEPT ![l] = @ \o m1 \o m2 \o <<O(op)>>]
                /\ logEpoch' = [logEpoch EXCEPT ![l] = e] /\ wake' = [wake EXCEPT ![l] = we]
                /\ IF EarlyWake THEN /\ UNCHANGED <<flushed, quiet>>
                                    /\ gw' = IF RaiseWake /\ we # wake[l] THEN Max2(gw, we) ELSE gw
                   ELSE DoWake(l, e)
                /\ answered' = answered \cup {op}
             /\ holder' = [holder EXCEPT ![l] = None]
             /\ UNCHANGED <<ge, inflight, disk, xEpoch, hist, base, up, started, crashes, ck, ckDisk, broken>>
\* one round of a log's thread, up to the write
Swap(l) == /\ up = "serve" /\ holder[l] = None /\ inflight[l] = <<>>
           /\ LET seen == wake[l] # gw
                  q0 == IF seen THEN 0 ELSE quiet[l]
                  idle == mem[l] = <<>> /\ q0 = 0 /\ ge # logEpoch[l] /\ ge # gw
                  m == IF idle THEN <<E(ge), Q>> ELSE mem[l] IN
              /\ m # <<>> \/ q0 # quiet[l] \/ (seen /\ ~RecordWake)
              /\ quiet' = [quiet EXCEPT ![l] = IF idle THEN ge ELSE q0]
              /\ wake' = [wake EXCEPT ![l] = IF seen /\ (idle \/ ~RecordWake) THEN gw ELSE @]
              /\ logEpoch' = [logEpoch EXCEPT ![l] = IF idle THEN ge ELSE @]
              /\ xEpoch' = [xEpoch EXCEPT ![l] = IF m # <<>> THEN logEpoch'[l] ELSE @]
              /\ mem' = [mem EXCEPT ![l] = <<>>] /\ inflight' = [inflight EXCEPT ![l] = m]
           /\ UNCHANGED <<ge, gw, disk, flushed, holder, hist, answered, base, up, started, crashes, ck, ckDisk, broken>>
Sync(l) == /\ up = "serve" /\ inflight[l] # <<>>
           /\ disk' = [disk EXCEPT ![l] = @ \o inflight[l]] /\ inflight' = [inflight EXCEPT ![l] = <<>>]
           /\ flushed' = [flushed EXCEPT ![l] = xEpoch[l]]
           /\ UNCHANGED <<ge, gw, mem, logEpoch, quiet, wake, xEpoch, holder, hist, answered, base, up, started, crashes, ck, ckDisk, broken>>

\* --------------------------------------------------------- checkpoints ---
CkStart == /\ Ckpts /\ up = "serve" /\ ck.st = "no" /\ ck' = [NoCk EXCEPT !.st = "pass", !.min = ge]
           /\ UNCHANGED <<ge, gw, lvars, hist, answered, base, up, started, crashes, ckDisk, broken>>
CkPass(l) == /\ up = "serve" /\ ck.st = "pass" /\ l \notin ck.pass /\ holder[l] = None /\ ck' = [ck EXCEPT !.pass = @ \cup {l}]
             /\ UNCHANGED <<ge, gw, lvars, hist, answered, base, up, started, crashes, ckDisk, broken>>
\* the scan is one moment for our one key.  Begin publishes within the log's lock; the scan may still see the row as it was
\* before updates that are in their critical section.
Published == {n \in 0..Len(hist) : \A o \in (n + 1)..Len(hist) : holder[hist[o].log] = o}
CkScan == /\ up = "serve" /\ ck.st = "pass" /\ (Barrier => ck.pass = Logs)
          /\ \E n \in Published : n >= Max({0} \cup base) /\ ck' = [ck EXCEPT !.st = "done", !.max = ge, !.ops = 1..n, !.pass = {}]
          /\ UNCHANGED <<ge, gw, lvars, hist, answered, base, up, started, crashes, ckDisk, broken>>
\* the commit test goes from log to log
FlushedTo(l, e) == IF quiet[l] # 0 /\ quiet[l] = flushed[l] THEN e ELSE flushed[l]
CkCheck(l) == /\ up = "serve" /\ ck.st = "done" /\ l \notin ck.pass /\ (CommitCheck => holder[l] = None)
              /\ FlushedTo(l, ge) > ck.max /\ ck' = [ck EXCEPT !.pass = @ \cup {l}]
              /\ UNCHANGED <<ge, gw, lvars, hist, answered, base, up, started, crashes, ckDisk, broken>>
CkCommit == /\ up = "serve" /\ ck.st = "done" /\ ck.pass = Logs /\ ckDisk' = [ck EXCEPT !.pass = {}] /\ ck' = NoCk
            /\ UNCHANGED <<ge, gw, lvars, hist, answered, base, up, started, crashes, broken>>

\* ------------------------------------------------------------ recovery ---
Epochs(d) == [i \in 1..Len(d) |-> LET js == {j \in 1..i : d[j][1] = "E"} IN IF js = {} THEN 0 ELSE d[Max(js)][2]]
Last(d) == IF d = <<>> THEN 0 ELSE Epochs(d)[Len(d)]
First(d) == LET js == {j \in 1..Len(d) : d[j][1] = "E"} IN IF js = {} THEN 0 ELSE d[Min(js)][2]
Quiescent(d) == d # <<>> /\ d[Len(d)] = Q
Wakes(d) == {Epochs(d)[i] : i \in {j \in 1..Len(d) : d[j][1] = "W"}}
LastWake(d) == LET js == {j \in 1..Len(d) : d[j][1] = "W"} IN IF js = {} THEN 0 ELSE Epochs(d)[Max(js)]
FirstWakeFrom(d, q) == LET js == {j \in 1..Len(d) : d[j][1] = "W" /\ Epochs(d)[j] >= q /\ Epochs(d)[j] # 0} IN IF js = {} THEN 0 ELSE Epochs(d)[Min(js)]
MaxLast(D) == Max({0, IF ckDisk.st = "done" THEN ckDisk.max + 1 ELSE 0} \cup {Last(D[l]) : l \in Logs})
Bound0(D) == LET maxWake == Max({0} \cup {LastWake(D[l]) : l \in Logs})
                qs == {Last(D[l]) : l \in {x \in Logs : Quiescent(D[x])}}
                minq == IF qs = {} THEN 0 ELSE Min(qs)
                missed == maxWake # 0 /\ minq # 0 /\ minq <= maxWake IN
            Min({MaxLast(D)} \cup {Last(D[l]) : l \in {x \in Logs : D[x] # <<>> /\ ~Quiescent(D[x]) /\ Last(D[x]) # 0}}
                \cup {FirstWakeFrom(D[l], minq) : l \in {x \in Logs : missed /\ minq <= LastWake(D[x]) /\ FirstWakeFrom(D[x], minq) # 0}})
Bound(D) == IF Clamp /\ ckDisk.st = "done" THEN Max2(Bound0(D), ckDisk.max + 1) ELSE Bound0(D)
\* where replay of one log with bound M stops: behind the first epoch record at or above M
Stop(d, M) == LET js == {j \in 1..Len(d) : d[j][1] = "E" /\ d[j][2] >= M} IN IF js = {} THEN Len(d) ELSE Min(js)
Replayed(d, M, m) == {d[i][2] : i \in {j \in 1..Stop(d, M) : d[j][1] = "O" /\ Epochs(d)[j] >= m}}
RecMin == IF ckDisk.st = "done" THEN ckDisk.min ELSE 0
Recovered(D) == (IF ckDisk.st = "done" THEN ckDisk.ops ELSE {}) \cup UNION {Replayed(D[l], Bound(D), RecMin) : l \in Logs}
Prefix(S) == S = 1..Cardinality(S)
\* the images a crash may leave
RECURSIVE Images(_, _)
Images(D, todo) == IF todo = {} THEN {D} ELSE LET l == CHOOSE x \in todo : TRUE IN
                   UNION {Images([D EXCEPT ![l] = @ \o SubSeq(inflight[l], 1, n)], todo \ {l}) : n \in 0..Len(inflight[l])}
CrashImages == Images(disk, Logs)
Crash == /\ up # "dead" /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ \E D \in CrashImages : \E torn \in SUBSET (IF up = "start" THEN Logs \ started ELSE {}) :
            disk' = [l \in Logs |-> IF l \in torn THEN Append(D[l], E(ge)) ELSE D[l]]
         /\ up' = "recover" /\ started' = {} /\ mem' = [l \in Logs |-> <<>>] /\ inflight' = [l \in Logs |-> <<>>] /\ holder' = FreshLog
         /\ logEpoch' = FreshLog /\ quiet' = FreshLog /\ wake' = FreshLog /\ flushed' = FreshLog /\ xEpoch' = FreshLog /\ gw' = 0 /\ ge' = 0
         /\ ck' = NoCk
         /\ UNCHANGED <<hist, answered, base, ckDisk, broken>>
\* the bound is fixed when recovery begins (ge holds it meanwhile, xEpoch the epoch to go on with); then logs are cut one by one
RecPlan == /\ up = "recover" /\ started = {} /\ ge = 0
           /\ ge' = Bound(disk) + 1 /\ xEpoch' = [l \in Logs |-> IF FreshEpoch THEN Max2(MaxLast(disk), Bound(disk)) ELSE Bound(disk)]
           /\ broken' = IF broken # "" THEN broken
                        ELSE IF ~Prefix(Recovered(disk)) THEN "not a prefix"
                        ELSE IF ~(base \subseteq Recovered(disk)) THEN "recovered state lost"
                        ELSE IF ckDisk.st = "done" /\ ~(ckDisk.max < Bound(disk) /\ \A l \in Logs : First(disk[l]) <= ckDisk.min) THEN "recovery refuses" ELSE ""
           /\ base' = Recovered(disk)
           /\ UNCHANGED <<gw, mem, inflight, disk, logEpoch, quiet, wake, flushed, holder, hist, answered, up, started, crashes, ck, ckDisk>>
RecCut(l) == /\ up = "recover" /\ ge # 0 /\ l \notin started
             /\ LET d == disk[l]  s == Stop(d, ge - 1)
                    bs == {j \in 1..s : d[j][1] = "E" /\ d[j][2] < RecMin}
                    b == IF RecMin = 0 \/ bs = {} THEN 1 ELSE Max(bs) IN
                disk' = [disk EXCEPT ![l] = SubSeq(d, b, s)]
             /\ started' = started \cup {l}
             /\ UNCHANGED <<ge, gw, mem, inflight, logEpoch, quiet, wake, flushed, xEpoch, holder, hist, answered, base, up, crashes, ck, ckDisk, broken>>
RecDone == /\ up = "recover" /\ ge # 0 /\ started = Logs
           /\ LET e == xEpoch[CHOOSE l \in Logs : TRUE] + 1 IN e <= MaxEpoch /\ ge' = e
           /\ hist' = SubSeq(hist, 1, Cardinality(base)) /\ answered' = base
           /\ up' = (IF StartRecord THEN "start" ELSE "serve") /\ started' = {} /\ xEpoch' = FreshLog
           /\ UNCHANGED <<gw, mem, inflight, disk, logEpoch, quiet, wake, flushed, holder, base, crashes, ck, ckDisk, broken>>
Start(l) == /\ up = "start" /\ l \notin started /\ started' = started \cup {l}
            /\ disk' = [disk EXCEPT ![l] = @ \o <<E(ge), Q>>]
            /\ logEpoch' = [logEpoch EXCEPT ![l] = ge] /\ quiet' = [quiet EXCEPT ![l] = ge] /\ flushed' = [flushed EXCEPT ![l] = ge]
            /\ up' = (IF started' = Logs THEN "serve" ELSE up)
            /\ UNCHANGED <<ge, gw, mem, inflight, wake, xEpoch, holder, hist, answered, base, crashes, ck, ckDisk, broken>>
Next == \/ Tick \/ Crash \/ RecPlan \/ RecDone \/ CkStart \/ CkScan \/ CkCommit
        \/ \E l \in Logs : Begin(l) \/ Record(l) \/ Swap(l) \/ Sync(l) \/ RecCut(l) \/ Start(l) \/ CkPass(l) \/ CkCheck(l)
Spec == Init /\ [][Next]_vars
Sound == broken = ""
\* With nobody updating and all logs idle (their threads have nothing more to do), everything answered will be recovered.
Settled == /\ up = "serve" /\ \A l \in Logs : mem[l] = <<>> /\ inflight[l] = <<>> /\ holder[l] = None /\ quiet[l] # 0 /\ quiet[l] = flushed[l] /\ wake[l] = gw
Durable == Settled => answered \subseteq Recovered(disk)
=============================================================================
