------------------------------- MODULE Release -------------------------------
(* What callables given to an event loop hold (P28): a task or timer callback  *)
(* is kept while it may still run and while it runs, and let go of - once, and *)
(* before the loop goes to sleep - when it has run for the last time or was    *)
(* cancelled; what never ran goes with the loop.                               *)
EXTENDS Integers, FiniteSets
VARIABLES
 kept,     \* callables not yet let go of
 running,  \* ... inside which the loop is right now
 done,     \* ... that will not run again
 may,      \* ... being cancelled: may be let go of
 rep,      \* repeating timers
 ending    \* the loop is being destroyed
rvars == <<kept, running, done, may, rep, ending>>
RInit == kept = {} /\ running = {} /\ done = {} /\ may = {} /\ rep = {} /\ ending = FALSE
Give(c, r) == /\ c \notin kept /\ kept' = kept \cup {c} /\ rep' = IF r THEN rep \cup {c} ELSE rep
              /\ UNCHANGED <<running, done, may, ending>>
Begin(c) == c \in kept /\ c \notin running /\ running' = running \cup {c} /\ UNCHANGED <<kept, done, may, rep, ending>>
End(c) == /\ c \in running /\ c \in kept /\ running' = running \ {c}
          /\ done' = IF c \in rep THEN done ELSE done \cup {c}
          /\ UNCHANGED <<kept, may, rep, ending>>
Cancel(c) == may' = may \cup {c} /\ UNCHANGED <<kept, running, done, rep, ending>>
Cancelled(c) == done' = done \cup {c} /\ UNCHANGED <<kept, running, may, rep, ending>>
LetGo(c) == /\ c \in kept /\ c \notin running
            /\ c \in done \cup may \/ ending
            /\ kept' = kept \ {c} /\ UNCHANGED <<running, done, may, rep, ending>>
Sleeps == kept \cap done \subseteq running /\ UNCHANGED rvars
\* the n workers of a pool may keep their last tasks until they take the next ones
WorkersSleep(n) == Cardinality((kept \cap done) \ running) <= n /\ UNCHANGED rvars
Destroy == ending' = TRUE /\ UNCHANGED <<kept, running, done, may, rep>>
Over == ending /\ kept = {} /\ UNCHANGED rvars
=============================================================================
