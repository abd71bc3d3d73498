------------------------------ MODULE ThrPool ------------------------------
(* Contract of the thread pool (property P22).                              *)
EXTENDS Integers, FiniteSets
VARIABLES
  q, n,       \* queue bound, workers
  ws,         \* threads seen running tasks
  clients,    \* threads that pushed from outside
  pushing,    \* task -> thread whose push has not returned
  before,     \* task -> tasks accepted before its push began
  acc, late,  \* tasks accepted; accepted after the destruction began
  run, done,  \* task -> thread; tasks finished
  del         \* "no", "in", "gone"
pvars == <<q, n, ws, clients, pushing, before, acc, late, run, done, del>>
PInit == /\ q = 0 /\ n = 0 /\ ws = {} /\ clients = {} /\ pushing = <<>> /\ before = <<>> /\ acc = {} /\ late = {}
         /\ run = <<>> /\ done = {} /\ del = "no"
With(f, k, x) == [u \in DOMAIN f \cup {k} |-> IF u = k THEN x ELSE f[u]]
But(f, k) == [u \in DOMAIN f \ {k} |-> f[u]]
Started == DOMAIN run \cup done
Busy == {run[k] : k \in DOMAIN run}
New(t, k) == q' = k /\ clients' = {t} /\ UNCHANGED <<n, ws, pushing, before, acc, late, run, done, del>>
SetQ(k) == q' = k /\ UNCHANGED <<n, ws, clients, pushing, before, acc, late, run, done, del>>
Start(k) == /\ n = 0 /\ n' = k /\ UNCHANGED <<q, ws, clients, pushing, before, acc, late, run, done, del>>
PushB(t, k) ==
  /\ k \notin DOMAIN before
  /\ pushing' = With(pushing, k, t) /\ before' = With(before, k, acc)
  /\ clients' = (IF t \in Busy THEN clients ELSE clients \cup {t})
  /\ t \in Busy \/ t \notin ws
  /\ UNCHANGED <<q, n, ws, acc, late, run, done, del>>
(* a push returns only when there was room; a worker may have taken one     *)
(* task that it has not begun                                               *)
PushE(t, k) ==
  /\ k \in DOMAIN pushing /\ pushing[k] = t /\ pushing' = But(pushing, k)
  /\ acc' = acc \cup {k} /\ late' = (IF del = "no" THEN late ELSE late \cup {k})
  /\ Cardinality((acc' \ late') \ Started) <= q + n - Cardinality(DOMAIN run)
  /\ UNCHANGED <<q, n, ws, clients, before, run, done, del>>
(* once, on a worker, at most n at a time, in submission order              *)
RunB(t, k) ==
  /\ k \in DOMAIN pushing \cup acc /\ k \notin Started /\ del # "gone"
  /\ t \notin Busy /\ t \notin clients /\ Cardinality(ws \cup {t}) <= n
  /\ Cardinality(DOMAIN run) < n
  /\ Cardinality((before[k] \ late) \ Started) <= n - Cardinality(DOMAIN run) - 1
  /\ run' = With(run, k, t) /\ ws' = ws \cup {t}
  /\ UNCHANGED <<q, n, clients, pushing, before, acc, late, done, del>>
RunE(t, k) == /\ k \in DOMAIN run /\ run[k] = t /\ run' = But(run, k) /\ done' = done \cup {k}
              /\ UNCHANGED <<q, n, ws, clients, pushing, before, acc, late, del>>
(* nothing can run any more: idle workers leave nothing waiting, and pushes *)
(* wait only while the queue is full                                        *)
Quiet ==
  LET wait == (acc \ late) \ Started IN
  /\ IF Cardinality(DOMAIN run) < n THEN wait = {} /\ DOMAIN pushing = {}
     ELSE (DOMAIN pushing # {} => Cardinality(wait) >= q)
  /\ UNCHANGED pvars
DelB == del = "no" /\ del' = "in" /\ UNCHANGED <<q, n, ws, clients, pushing, before, acc, late, run, done>>
(* all workers ended; whatever was accepted has run                         *)
DelE == /\ del = "in" /\ del' = "gone" /\ DOMAIN run = {} /\ DOMAIN pushing = {}
        /\ (n > 0 => acc \ late \subseteq done)
        /\ UNCHANGED <<q, n, ws, clients, pushing, before, acc, late, run, done>>
=============================================================================
