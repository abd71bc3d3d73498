---------------------------- MODULE LoopThreads ----------------------------
(* Contract of loop threads and loop pools (property P14).                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  st,     \* "new", "starting", "up", "deleting", "gone"
  pool, n, wantinit, starter,
  th,     \* loop -> its thread (loops announced by the initialisation callback, in order)
  order,  \* loops in the order they were first handed out
  handed, \* how many loops were handed out
  left,   \* loops that may have returned by themselves
  open    \* tasks handed to a loop that did not run: <<loop, id>>
pvars == <<st, pool, n, wantinit, starter, th, order, handed, left, open>>
PInit == /\ st = "new" /\ pool = FALSE /\ n = 0 /\ wantinit = FALSE /\ starter = 0 /\ th = <<>>
         /\ order = <<>> /\ handed = 0 /\ left = {} /\ open = {}
Base == 100
StartCall(self, p, k, i) ==
  /\ st = "new" /\ st' = "starting" /\ starter' = self /\ pool' = p /\ n' = k /\ wantinit' = i
  /\ UNCHANGED <<th, order, handed, left, open>>
(* on its own new thread, once per loop *)
InitCb(k, self) ==
  /\ st = "starting" /\ wantinit /\ k \notin DOMAIN th /\ self # starter
  /\ Cardinality(DOMAIN th) < n
  /\ \A j \in DOMAIN th : th[j] # self
  /\ th' = [j \in DOMAIN th \cup {k} |-> IF j = k THEN self ELSE th[j]]
  /\ UNCHANGED <<st, pool, n, wantinit, starter, order, handed, left, open>>
StartRet(k) ==
  /\ st = "starting" /\ st' = "up"
  /\ wantinit => Cardinality(DOMAIN th) = n
  /\ ~pool => (k = -1 /\ 0 \in left) \/ (k >= 0 /\ (wantinit => k \in DOMAIN th))
  /\ UNCHANGED <<pool, n, wantinit, starter, th, order, handed, left, open>>
(* strict rotation; a loop that returned by itself may be reported as none *)
Next(k) ==
  /\ st = "up" /\ handed' = handed + 1
  /\ IF ~pool THEN (k = -1 /\ left # {}) \/ k >= 0
     ELSE IF n = 0 THEN k = Base
     ELSE IF handed < n THEN (k = -1 /\ left # {}) \/ (k >= 0 /\ k # Base /\ \A i \in 1..Len(order) : order[i] # k)
     ELSE (k = -1 /\ (order[(handed % n) + 1] \in left \/ order[(handed % n) + 1] = -1)) \/ k = order[(handed % n) + 1]
  /\ order' = (IF pool /\ n > 0 /\ handed < n THEN Append(order, k) ELSE order)
  /\ UNCHANGED <<st, pool, n, wantinit, starter, th, left, open>>
Queue(k, id) == open' = open \cup {<<k, id>>} /\ UNCHANGED <<st, pool, n, wantinit, starter, th, order, handed, left>>
Exec(k, id, self) ==
  /\ <<k, id>> \in open /\ open' = open \ {<<k, id>>}
  /\ k \in DOMAIN th => th[k] = self
  /\ self # starter
  /\ th' = [j \in DOMAIN th \cup {k} |-> IF j = k THEN self ELSE th[j]]
  /\ UNCHANGED <<st, pool, n, wantinit, starter, order, handed, left>>
Quit(k) == left' = left \cup {k} /\ UNCHANGED <<st, pool, n, wantinit, starter, th, order, handed, open>>
Quiet == (st = "up" => \A x \in open : x[1] \in left) /\ UNCHANGED pvars
DelCall == st' = "deleting" /\ UNCHANGED <<pool, n, wantinit, starter, th, order, handed, left, open>>
DelRet(live) == live = 0 /\ st' = "gone" /\ UNCHANGED <<pool, n, wantinit, starter, th, order, handed, left, open>>
OwnThreads == \A i, j \in DOMAIN th : i # j => th[i] # th[j]
=============================================================================
