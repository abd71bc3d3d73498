------------------------------- MODULE RwLock -------------------------------
(* Contract of the reader-writer lock (property P20). Got is observed after *)
(* the lock call returned, Rel before the unlock call is made.              *)
EXTENDS Integers, FiniteSets
VARIABLES
  readers, writers, \* threads between Got and Rel
  asking,           \* threads inside a lock call
  val               \* writes made under the lock so far
rwvars == <<readers, writers, asking, val>>
RwInit == readers = {} /\ writers = {} /\ asking = {} /\ val = 0
Ask(t) == asking' = asking \cup {t} /\ UNCHANGED <<readers, writers, val>>
(* readers share, a writer is alone; holders see every earlier write *)
GotR(t, v) == /\ t \in asking /\ writers = {} /\ v = val
              /\ asking' = asking \ {t} /\ readers' = readers \cup {t} /\ UNCHANGED <<writers, val>>
GotW(t, v) == /\ t \in asking /\ writers = {} /\ readers = {} /\ v = val
              /\ asking' = asking \ {t} /\ writers' = {t} /\ UNCHANGED <<readers, val>>
RelR(t, v) == /\ t \in readers /\ v = val
              /\ readers' = readers \ {t} /\ UNCHANGED <<asking, writers, val>>
RelW(t, v) == /\ t \in writers /\ v = val + 1 /\ val' = v
              /\ writers' = {} /\ UNCHANGED <<asking, readers>>
Free(t) == UNCHANGED rwvars
(* nothing can run any more: nobody waits for a lock that is free, and no   *)
(* reader waits while only readers hold it (scripts never wait inside)      *)
Quiet(left) == left = 0 /\ asking = {} /\ readers = {} /\ writers = {} /\ UNCHANGED rwvars
=============================================================================
