----------------------------- MODULE ConnWire -----------------------------
(* Contract of the send side of one connection (properties P01 and P03).    *)
(*                                                                          *)
(* Users issue messages 1,2,3,... (numbered in the order their send calls   *)
(* begin) from threads; thread 0 is the connection's loop thread.  The      *)
(* kernel takes bytes ("Wire") and the write side ends with one "Fin".      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  calls,     \* sequence of [t, n, sent, ret, refu, dead, pred]
  cur,       \* message partially on the wire, 0: none
  fin,       \* number of end-of-streams emitted
  shut,      \* 0: not asked, 1: a shutdown call has begun, 2: one has returned
  must,      \* messages accepted before the first shutdown request
  hard       \* the connection is being or has been torn down / failed

wvars == <<calls, cur, fin, shut, must, hard>>

WInit == /\ calls = <<>> /\ cur = 0 /\ fin = 0 /\ shut = 0 /\ must = {} /\ hard = FALSE

M == 1..Len(calls)
Done(m) == calls[m].sent = calls[m].n
(* messages a send of thread t beginning now must not overtake: those of    *)
(* its own thread, and those already returned - except that a send on the   *)
(* loop thread may overtake one still queued by another thread              *)
Preds(t) == {j \in M : \/ calls[j].t = t
                       \/ calls[j].ret /\ (calls[j].t = 0 \/ t # 0)}

SendCall(t, m, n) ==
  /\ m = Len(calls) + 1
  /\ calls' = Append(calls, [t |-> t, n |-> n, sent |-> 0, ret |-> FALSE,
                             refu |-> (shut > 0 \/ hard), dead |-> (shut = 2), pred |-> Preds(t)])
  /\ UNCHANGED <<cur, fin, shut, must, hard>>

SendRet(t, m) ==
  /\ m \in M /\ calls[m].t = t /\ ~calls[m].ret
  /\ calls' = [calls EXCEPT ![m].ret = TRUE, ![m].refu = @ \/ shut > 0 \/ hard]
  /\ UNCHANGED <<cur, fin, shut, must, hard>>

ShutCall == /\ shut' = IF shut = 0 THEN 1 ELSE shut
            /\ must' = IF shut = 0 THEN {m \in M : calls[m].ret /\ ~calls[m].refu} ELSE must
            /\ UNCHANGED <<calls, cur, fin, hard>>
ShutRet == /\ shut > 0 /\ shut' = 2 /\ UNCHANGED <<calls, cur, fin, must, hard>>

(* force close, peer close or reset, write failure, down, teardown *)
Hard == hard' = TRUE /\ UNCHANGED <<calls, cur, fin, shut, must>>

(* bytes a..b of message m reach the wire *)
MayStart(m) == /\ ~calls[m].dead /\ calls[m].sent = 0
               /\ \A j \in calls[m].pred : j < m => Done(j) \/ calls[j].refu
Wire(m, a, b) ==
  /\ fin = 0 /\ m \in M
  /\ a = calls[m].sent /\ a < b /\ b <= calls[m].n
  /\ IF cur = 0 THEN MayStart(m) ELSE m = cur
  /\ calls' = [j \in M |-> IF j = m THEN [calls[m] EXCEPT !.sent = b]
                           ELSE IF j \in calls[m].pred /\ ~Done(j)
                                THEN [calls[j] EXCEPT !.dead = TRUE] ELSE calls[j]]
  /\ cur' = IF b = calls[m].n THEN 0 ELSE m
  /\ UNCHANGED <<fin, shut, must, hard>>

Fin(how) ==
  /\ how = 1 /\ fin = 0 /\ shut > 0
  /\ hard \/ (cur = 0 /\ \A m \in must : Done(m))
  /\ fin' = 1
  /\ UNCHANGED <<calls, cur, shut, must, hard>>

(* nothing is going to happen any more, the kernel took what it was given *)
Quiet ==
  /\ ~hard => /\ cur = 0
              /\ \A m \in M : calls[m].ret /\ ~calls[m].refu /\ ~calls[m].dead => Done(m)
              /\ shut > 0 => fin = 1
  /\ UNCHANGED wvars

----------------------------------------------------------------------------
(* safety restated over the state, checked in every bounded model *)
TypeOK == /\ cur \in M \cup {0} /\ fin \in 0..1 /\ shut \in 0..2
(* at most one message is partially on the wire, and it is cur *)
NoInterleave == \A m \in M : calls[m].sent \in 1..(calls[m].n - 1) => m = cur
(* a thread's message is on the wire only if its earlier ones are complete or were refused *)
ThreadOrder == \A m \in M : calls[m].sent > 0 =>
                 \A j \in M : j < m /\ calls[j].t = calls[m].t => Done(j) \/ calls[j].refu
RefusedAfterShut == \A m \in M : calls[m].dead => calls[m].sent < calls[m].n \/ calls[m].n = 0
FlushBeforeFin == fin = 1 /\ ~hard => \A m \in must : Done(m)
=============================================================================
