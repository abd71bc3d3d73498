------------------------------ MODULE AsyncLog ------------------------------
(* Contract of the asynchronous log (property P17).  Records are numbered   *)
(* in the order their appends begin; "on" disk is what has left the         *)
(* process.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BufSize, Bound, Slack
VARIABLES
  flush,   \* flush interval in microseconds
  recs,    \* sequence of [t, n, began, ended, at, pred, on]
  lost,    \* records discarded with a notice
  budget,  \* bytes that may still be discarded
  must,    \* records appended before the stop
  st       \* "new", "run", "stop", "gone"
avars == <<flush, recs, lost, budget, must, st>>
AInit == flush = 0 /\ recs = <<>> /\ lost = {} /\ budget = 0 /\ must = {} /\ st = "new"
D == DOMAIN recs
RECURSIVE Bytes(_)
Bytes(S) == IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN recs[m].n + Bytes(S \ {m})
Open(m) == ~recs[m].on /\ m \notin lost
New(f) == st = "new" /\ flush' = f /\ UNCHANGED <<recs, lost, budget, must, st>>
Start == st = "new" /\ st' = "run" /\ UNCHANGED <<flush, recs, lost, budget, must>>
AppB(t, m, n, now) ==
  /\ m = Len(recs) + 1
  /\ recs' = Append(recs, [t |-> t, n |-> n, began |-> now, ended |-> FALSE, at |-> 0, on |-> FALSE,
                           pred |-> {j \in D : recs[j].ended}])
  /\ UNCHANGED <<flush, lost, budget, must, st>>
(* an append never waits for the disk *)
AppE(m, now) ==
  /\ m \in D /\ ~recs[m].ended /\ now - recs[m].began <= Slack
  /\ recs' = [recs EXCEPT ![m].ended = TRUE, ![m].at = now]
  /\ UNCHANGED <<flush, lost, budget, must, st>>
(* the backlog exceeds the limit; two buffers in a row hold more than one   *)
Notice(k) ==
  /\ LET un == Bytes({m \in D : Open(m)}) IN
     /\ un > (Bound \div 2) * BufSize /\ k >= 1
     /\ k <= (un \div (BufSize \div 2)) + 2 - Bound
  /\ budget' = budget + k * BufSize
  /\ UNCHANGED <<flush, recs, lost, must, st>>
Gap(S) == S = {} \/ Bytes(S) <= budget
(* exactly once, whole, and not before what was appended earlier *)
Write(m, ok) ==
  /\ st \in {"run", "stop"} /\ ok /\ m \in D /\ Open(m)
  /\ LET gap == {j \in recs[m].pred : Open(j)} IN
     /\ Gap(gap)
     /\ lost' = lost \cup gap /\ budget' = budget - Bytes(gap)
  /\ recs' = [recs EXCEPT ![m].on = TRUE]
  /\ UNCHANGED <<flush, must, st>>
StopB == st = "run" /\ st' = "stop" /\ must' = {m \in D : recs[m].ended} /\ UNCHANGED <<flush, recs, lost, budget>>
(* everything appended before the stop is on disk, no file is left open *)
StopE(files) == /\ st = "stop" /\ files = 0 /\ st' = "gone"
                /\ Gap({m \in must : Open(m)})
                /\ UNCHANGED <<flush, recs, lost, budget, must>>
(* nothing can run before the next flush: what is older is on disk *)
Quiet(now) == /\ (st = "run") => Gap({m \in D : Open(m) /\ recs[m].ended /\ recs[m].at + flush + Slack <= now})
              /\ UNCHANGED avars
=============================================================================
