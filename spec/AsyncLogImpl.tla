---------------------------- MODULE AsyncLogImpl ----------------------------
(* The asynchronous log as kanon implements it: appenders fill a current      *)
(* buffer under a mutex, full ones queue up; the background thread waits for  *)
(* a full one or the flush interval, takes everything including the current   *)
(* buffer, discards what exceeds the bound with a notice, writes and flushes. *)
(* AsyncLog (P17) observes.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Ops, Sizes, BufSize, Bound, Slack, Interval, MaxNow, Mutant
VARIABLES s, flush, recs, lost, budget, must, st, bad
C == INSTANCE AsyncLog
mv == <<flush, recs, lost, budget, must, st>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
Init == /\ s = [pc |-> [t \in T |-> "idle"], m |-> [t \in T |-> 0], left |-> [t \in T |-> Ops], now |-> 0,
                cur |-> <<>>, next |-> TRUE, bufs |-> <<>>, running |-> TRUE, last |-> FALSE,
                bg |-> "top", till |-> 0, woken |-> FALSE, dup |-> <<>>, out |-> <<>>, main |-> "up"]
        /\ bad = "" /\ flush = Interval /\ recs = <<>> /\ lost = {} /\ budget = 0 /\ must = {} /\ st = "run"
RECURSIVE Sum(_)
Sum(b) == IF b = <<>> THEN 0 ELSE recs[Head(b)].n + Sum(Tail(b))
Call(t, n) == /\ s.pc[t] = "idle" /\ s.left[t] > 0 /\ s.main # "gone"
              /\ s' = [s EXCEPT !.pc[t] = "app", !.left[t] = @ - 1, !.m[t] = Len(recs) + 1]
              /\ Obs(C!AppB(t, Len(recs) + 1, n, s.now), "AppB")
Fits(n) == IF Mutant = "overfull" THEN n <= BufSize - Sum(s.cur) + 1 ELSE n < BufSize - Sum(s.cur)
App(t) == /\ s.pc[t] = "app" /\ Silent
          /\ LET m == s.m[t] IN
             s' = IF Fits(recs[m].n) THEN [s EXCEPT !.cur = Append(@, m), !.pc[t] = "ret"]
                  ELSE [s EXCEPT !.bufs = IF Mutant = "lostfull" /\ ~s.next THEN @ ELSE Append(@, s.cur), !.cur = <<m>>, !.next = FALSE, !.pc[t] = "ret", !.woken = Mutant # "nonotify"]
Ret(t) == s.pc[t] = "ret" /\ s' = [s EXCEPT !.pc[t] = "idle"] /\ Obs(C!AppE(s.m[t], s.now), "AppE")
(* the background thread *)
Top == /\ s.bg = "top" /\ Silent
       /\ s' = IF Mutant = "checkfirst" /\ ~s.running THEN [s EXCEPT !.bg = "end"]
               ELSE IF s.running /\ s.bufs = <<>> THEN [s EXCEPT !.bg = "sleep", !.till = s.now + Interval, !.woken = FALSE]
               ELSE [s EXCEPT !.bg = "take"]
Awake == s.bg = "sleep" /\ (s.woken \/ (s.now >= s.till /\ Mutant # "untimed")) /\ s' = [s EXCEPT !.bg = "take"] /\ Silent
Take == /\ s.bg = "take" /\ Silent
        /\ s' = [s EXCEPT !.last = ~s.running, !.cur = IF Mutant = "keepcur" THEN @ ELSE <<>>, !.next = TRUE, !.bufs = <<>>, !.bg = "discard",
                          !.dup = IF Mutant = "curfirst" THEN <<s.cur>> \o s.bufs ELSE IF Mutant = "nocur" THEN s.bufs ELSE Append(s.bufs, s.cur)]
Discard == /\ s.bg = "discard"
           /\ IF Len(s.dup) > Bound
              THEN /\ s' = [s EXCEPT !.dup = SubSeq(s.dup, 1, Bound), !.bg = "write"]
                   /\ IF Mutant = "silent" THEN Silent ELSE Obs(C!Notice(Len(s.dup) - Bound), "Notice")
              ELSE s' = [s EXCEPT !.bg = "write"] /\ Silent
(* to the file's own buffer, and from there to the disk *)
Put == /\ s.bg = "write" /\ Silent
       /\ s' = IF s.dup = <<>> THEN [s EXCEPT !.bg = IF Mutant = "noflush" /\ s.last THEN "flushed" ELSE "flush"]
               ELSE [s EXCEPT !.out = @ \o Head(s.dup), !.dup = Tail(@)]
Flush == /\ s.bg = "flush"
         /\ IF s.out = <<>> THEN s' = [s EXCEPT !.bg = "flushed"] /\ Silent
            ELSE s' = [s EXCEPT !.out = Tail(@)] /\ Obs(C!Write(Head(s.out), TRUE), "Write")
Round == s.bg = "flushed" /\ s' = [s EXCEPT !.bg = IF s.last THEN "end" ELSE "top"] /\ Silent
(* stop: from the thread that owns the log *)
StopB == s.main = "up" /\ s' = [s EXCEPT !.main = "stop"] /\ Obs(C!StopB, "StopB")
StopSec == s.main = "stop" /\ s' = [s EXCEPT !.main = "join", !.running = FALSE, !.woken = TRUE] /\ Silent
Join == s.main = "join" /\ (s.bg = "end" \/ Mutant = "nojoin") /\ s' = [s EXCEPT !.main = "gone"] /\ Obs(C!StopE(0), "StopE")
Sleeping == s.bg = "sleep" /\ ~s.woken /\ s.now < s.till
Resting == (\A t \in T : s.pc[t] = "idle") /\ (Sleeping \/ s.bg = "end") /\ s.main \in {"up", "gone"}
Stuck == s.bg = "sleep" /\ ~s.woken /\ s.now >= s.till /\ Mutant = "untimed"
Tick == /\ Resting \/ Stuck
        /\ s.now < MaxNow /\ s' = [s EXCEPT !.now = @ + 1] /\ Silent
Quiet == (Resting \/ (Stuck /\ \A t \in T : s.pc[t] = "idle")) /\ Obs(C!Quiet(s.now), "Quiet") /\ UNCHANGED s
Next == \/ Top \/ Awake \/ Take \/ Discard \/ Put \/ Flush \/ Round \/ StopB \/ StopSec \/ Join \/ Tick \/ Quiet
        \/ \E t \in T : App(t) \/ Ret(t) \/ \E n \in Sizes : Call(t, n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Top \/ Awake \/ Take \/ Discard \/ Put \/ Flush \/ Round) /\ WF_vars(StopSec \/ Join)
Conforms == bad = ""
InBounds == Sum(s.cur) < BufSize
Stops == (s.main = "stop") ~> (s.main = "gone")
=============================================================================
