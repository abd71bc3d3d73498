----------------------------- MODULE LoopTasks -----------------------------
(* Contract of the task queue of an event loop (property P06).              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  q,      \* per thread: tasks it has handed over and that did not run, in order
  late,   \* tasks that must not run before the next poll
  now,    \* run-now calls of the loop thread in progress (innermost first):
          \* <<id, "called" | "running" | "ran">>
  stack,  \* what the loop thread is executing (innermost first): <<id, was it queued>>
  st,     \* "new", "running", "ended"
  quitting \* quit was requested: the loop may finish its queue without polling
tvars == <<q, late, now, stack, st, quitting>>
None == -1
TInit(T) == q = [t \in T |-> <<>>] /\ late = {} /\ now = <<>> /\ stack = <<>> /\ st = "new" /\ quitting = FALSE

InTask == \E i \in 1..Len(stack) : stack[i][2]
Queue(t, id) ==
  /\ q' = [q EXCEPT ![t] = Append(@, id)]
  /\ late' = IF t = 0 /\ InTask /\ ~quitting THEN late \cup {id} ELSE late
  /\ UNCHANGED <<now, stack, st, quitting>>
(* the run-now form: executes before the call returns on the loop's own thread *)
RunCall(t, id) == IF t # 0 THEN Queue(t, id)
                  ELSE now' = <<<<id, "called">>>> \o now /\ UNCHANGED <<q, late, stack, st, quitting>>
RunRet(t, id) == IF t # 0 THEN UNCHANGED tvars
                 ELSE /\ now # <<>> /\ Head(now) = <<id, "ran">>
                      /\ now' = Tail(now) /\ UNCHANGED <<q, late, stack, st, quitting>>
Exec(id, onloop) ==
  /\ onloop
  /\ \/ /\ now # <<>> /\ Head(now) = <<id, "called">>
        /\ stack' = <<<<id, FALSE>>>> \o stack
        /\ now' = <<<<id, "running">>>> \o Tail(now) /\ UNCHANGED <<q, late>>
     \/ /\ \E t \in DOMAIN q : q[t] # <<>> /\ Head(q[t]) = id /\ q' = [q EXCEPT ![t] = Tail(@)]
        /\ stack' = <<<<id, TRUE>>>> \o stack
        /\ id \notin late /\ st = "running" /\ UNCHANGED <<late, now>>
  /\ UNCHANGED <<st, quitting>>
ExecEnd(id) ==
  /\ stack # <<>> /\ Head(stack)[1] = id /\ stack' = Tail(stack)
  /\ now' = IF now # <<>> /\ Head(now) = <<id, "running">> THEN <<<<id, "ran">>>> \o Tail(now) ELSE now
  /\ UNCHANGED <<q, late, st, quitting>>
Poll == late' = {} /\ UNCHANGED <<q, now, stack, st, quitting>>
Start == st' = "running" /\ UNCHANGED <<q, late, now, stack, quitting>>
Quit == late' = {} /\ quitting' = TRUE /\ UNCHANGED <<q, now, stack, st>>
Ended == st' = "ended" /\ UNCHANGED <<q, late, now, stack, quitting>>
(* nothing can run any more without the clock moving *)
Quiet == (st = "running" => \A t \in DOMAIN q : q[t] = <<>>) /\ UNCHANGED tvars

Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
OnceEach == \A t \in DOMAIN q : Distinct(q[t])
LateAreQueued == st = "running" => \A i \in late : 0 \in DOMAIN q => \E k \in 1..Len(q[0]) : q[0][k] = i
=============================================================================
