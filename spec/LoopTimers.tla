---------------------------- MODULE LoopTimers ----------------------------
(* Contract of the timers of an event loop (properties P09 and P10).        *)
(* Times are microseconds.  The deadline of a timer is known up to an       *)
(* interval [lo, hi]: a relative delay counts from somewhere inside the     *)
(* call, the next run of a repeating timer from somewhere inside the round  *)
(* that processed the last one.                                             *)
EXTENDS Integers, FiniteSets
CONSTANTS Slack,  \* how late a due timer may be while the loop is idle
          Tol     \* rounding of an interval
VARIABLES
  tm,     \* timer -> record (see SetCall)
  fired,  \* what fired in this round: {[id, lo, hi]}
  rt,     \* when this round began
  busy,   \* when the loop last finished a round that fired something or took time
  lag,    \* the wake-up time is relative, set somewhere inside a round: it may be late by that round's length
  st      \* "new", "running", "over"
mvars == <<tm, fired, rt, busy, lag, st>>
Inf == 2000000000
MInit == tm = <<>> /\ fired = {} /\ rt = 0 /\ busy = 0 /\ lag = 0 /\ st = "new"
Ids == DOMAIN tm

SetCall(id, lo, exact, iv) ==
  /\ id \notin Ids
  /\ tm' = [i \in Ids \cup {id} |->
              IF i = id THEN [st |-> "set", lo |-> lo, hi |-> IF exact THEN lo ELSE Inf, iv |-> iv, ret |-> FALSE,
                              canc |-> FALSE, old |-> FALSE, age |-> 0, seen |-> Inf, miss |-> 0, before |-> {j \in Ids : tm[j].ret}]
              ELSE tm[i]]
  /\ UNCHANGED <<fired, rt, busy, lag, st>>
SetRet(id, hi) ==
  /\ tm' = [tm EXCEPT ![id].ret = TRUE, ![id].hi = IF tm[id].st = "set" /\ @ = Inf THEN hi ELSE @]
  /\ UNCHANGED <<fired, rt, busy, lag, st>>
InOrder(id) == \A f \in fired :
  tm[id].old => /\ tm[id].hi >= f.lo
                /\ (tm[id].lo = tm[id].hi /\ f.lo = f.hi /\ tm[id].lo = f.lo => id \notin tm[f.id].before)
Fire(id, t, onloop) ==
  /\ id \in Ids /\ onloop /\ st = "running"
  /\ tm[id].st = "set" /\ ~tm[id].canc       \* exactly once; never once cancelled
  /\ t >= tm[id].lo                          \* never early
  /\ InOrder(id)
  /\ fired' = fired \cup {[id |-> id, lo |-> tm[id].lo, hi |-> tm[id].hi]}
  /\ tm' = [tm EXCEPT ![id].st = IF tm[id].iv = 0 THEN "done" ELSE "rearm"]
  /\ UNCHANGED <<rt, busy, lag, st>>
(* the loop is about to wait: the round is over *)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Missed(i) == fired # {} /\ tm[i].st = "set" /\ tm[i].old /\ tm[i].age = 2 /\ ~tm[i].canc /\ tm[i].hi + Slack < rt
PollBegin(t) ==
  /\ \A i \in Ids : tm[i].miss < 3    \* other timers' rounds do not pass over a due one
  /\ tm' = [i \in Ids |->
       LET x == [tm[i] EXCEPT !.age = IF tm[i].ret THEN Min(2, @ + 1) ELSE 0,
                              !.seen = IF @ = Inf /\ tm[i].age = 1 THEN t ELSE @, !.miss = IF Missed(i) THEN @ + 1 ELSE 0] IN
       IF tm[i].st = "rearm" THEN [x EXCEPT !.st = "set", !.lo = rt + tm[i].iv - Tol, !.hi = t + tm[i].iv + Tol] ELSE x]
  /\ fired' = {} /\ busy' = (IF fired # {} \/ t > rt THEN t ELSE busy)
  /\ lag' = (IF fired # {} THEN t - rt ELSE Max(lag, t - rt)) /\ UNCHANGED <<rt, st>>
PollRet(t) ==
  /\ tm' = [i \in Ids |-> IF tm[i].st = "set" /\ tm[i].ret THEN [tm[i] EXCEPT !.old = TRUE] ELSE tm[i]]
  /\ rt' = t /\ UNCHANGED <<fired, busy, lag, st>>
(* a cancel has taken effect *)
Cancelled(id) == tm' = [tm EXCEPT ![id].canc = TRUE] /\ UNCHANGED <<fired, rt, busy, lag, st>>
Start == st' = "running" /\ UNCHANGED <<tm, fired, rt, busy, lag>>
Over == st' = "over" /\ UNCHANGED <<tm, fired, rt, busy, lag>>
(* the loop waits: what is due has fired *)
Quiet(t) == /\ st = "running" => \A i \in Ids : tm[i].st = "set" /\ ~tm[i].canc /\ tm[i].age = 2 => Max(tm[i].seen, Max(tm[i].hi + lag, busy)) + Slack >= t
            /\ UNCHANGED mvars
=============================================================================
