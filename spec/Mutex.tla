------------------------------- MODULE Mutex -------------------------------
(* Contract of the mutex and the condition (property P21). Got is observed  *)
(* after the call returned, Rel before the unlock call is made.             *)
EXTENDS Integers, FiniteSets
Slack == 100000    \* the scripts never keep the mutex longer
VARIABLES
  holder,   \* thread between Got and Rel (0: none)
  val,      \* critical-section steps made so far
  maybe,    \* threads that may own the mutex: between Ask/WaitB... and Free
  trying,   \* thread -> may its try-lock fail?
  waiting,  \* thread -> [until |-> instant a timed wait ends, or -1]
  Spur,     \* may waits return without being notified?
  owed,     \* most notifications that waiters may still receive
  must      \* least number of waiters that must still be woken
mvars == <<holder, val, maybe, trying, waiting, owed, must, Spur>>
MInit(s) == Spur = s /\ holder = 0 /\ val = 0 /\ maybe = {} /\ trying = <<>> /\ waiting = <<>> /\ owed = 0 /\ must = 0
Untimed == {t \in DOMAIN waiting : waiting[t] < 0}
Min(a, b) == IF a < b THEN a ELSE b
(* a try-lock may fail once another thread may own the mutex, and that may  *)
(* be one whose own try-lock has not reported yet                           *)
Blame(t) == trying' = [u \in DOMAIN trying |-> trying[u] \/ u # t]
Ask(t) == /\ holder # t /\ maybe' = maybe \cup {t} /\ Blame(t) /\ UNCHANGED <<holder, val, waiting, owed, must, Spur>>
Enter(t, v) == /\ holder = 0 /\ v = val /\ holder' = t /\ Blame(t)
Got(t, v) == t \in maybe /\ Enter(t, v) /\ UNCHANGED <<val, maybe, waiting, owed, must, Spur>>
Rel(t, v) == /\ holder = t /\ v = val + 1 /\ val' = v /\ holder' = 0
             /\ UNCHANGED <<maybe, trying, waiting, owed, must, Spur>>
Free(t) == /\ maybe' = maybe \ {t} /\ UNCHANGED <<holder, val, trying, waiting, owed, must, Spur>>
TryB(t) == /\ trying' = [u \in DOMAIN trying \cup {t} |-> IF u = t THEN (maybe \cup DOMAIN trying) \ {t} # {} ELSE TRUE]
           /\ UNCHANGED <<holder, val, maybe, waiting, owed, must, Spur>>
(* it succeeds only on a free mutex and fails only on one that may be held *)
TryE(t, ok) ==
  /\ t \in DOMAIN trying
  /\ IF ok THEN holder = 0 /\ maybe' = maybe \cup {t}
           ELSE trying[t] /\ maybe' = maybe
  /\ trying' = [u \in DOMAIN trying \ {t} |-> trying[u] \/ ok]
  /\ UNCHANGED <<holder, val, waiting, owed, must, Spur>>
Held(t, h) == h = (holder = t) /\ UNCHANGED mvars
WaitB(t, v, us, now) ==
  /\ holder = t /\ v = val + 1 /\ val' = v /\ holder' = 0
  /\ waiting' = [u \in DOMAIN waiting \cup {t} |-> IF u = t THEN (IF us < 0 THEN -1 ELSE now + us) ELSE waiting[u]]
  /\ UNCHANGED <<maybe, trying, owed, must, Spur>>
WaitE(t, v, to, now) ==
  /\ t \in DOMAIN waiting /\ holder = 0 /\ v = val /\ holder' = t /\ Blame(t)
  /\ (to => (waiting[t] >= 0 /\ now >= waiting[t] - 1   \* the interval has really passed
             /\ now <= waiting[t] + Slack))
  /\ (~to => (owed > 0 \/ Spur))
  /\ waiting' = [u \in DOMAIN waiting \ {t} |-> waiting[u]]
  /\ owed' = (IF Spur \/ to THEN Min(owed, Cardinality(DOMAIN waiting) - 1) ELSE owed - 1)
  /\ must' = (IF to \/ must = 0 THEN must ELSE must - 1)
  /\ UNCHANGED <<val, maybe, Spur>>
(* a notification may be lost to a timed wait that is just ending *)
Note(t, all) ==
  /\ holder = t
  /\ LET w == Cardinality(DOMAIN waiting) IN owed' = (IF all THEN w ELSE Min(owed + 1, w))
  /\ must' = (IF all THEN Cardinality(Untimed)
              ELSE IF Untimed = DOMAIN waiting THEN Min(must + 1, Cardinality(Untimed)) ELSE must)
  /\ UNCHANGED <<holder, val, maybe, trying, waiting, Spur>>
(* nothing can run any more: only waits that nobody notified are left *)
Quiet(left) ==
  /\ holder = 0 /\ trying = <<>> /\ left = Cardinality(DOMAIN waiting)
  /\ maybe = DOMAIN waiting
  /\ \A t \in DOMAIN waiting : waiting[t] < 0
  /\ (~Spur => must = 0)
  /\ UNCHANGED mvars
=============================================================================
