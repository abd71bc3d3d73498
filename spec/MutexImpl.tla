------------------------------ MODULE MutexImpl ------------------------------
(* The mutex and the condition as kanon implements them: the system's mutex  *)
(* and condition, and beside them the holder's thread, recorded after        *)
(* locking, erased before unlocking and waiting.  A timed wait computes the  *)
(* instant at which it ends.  Mutex (P21) observes.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Ops, Kinds, In, Us, MaxNow, Spurious, Mutant
VARIABLES s, holder, val, maybe, trying, waiting, Spur, owed, must, bad
C == INSTANCE Mutex
mv == <<holder, val, maybe, trying, waiting, Spur, owed, must>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
(* own: the system's mutex; rec: the recorded holder; cv: waiters not woken; *)
(* till: when a timed wait ends (-1: never); to: it ended by time            *)
Init == /\ s = [pc |-> [t \in T |-> "idle"], left |-> [t \in T |-> Ops], own |-> 0, rec |-> 0, cv |-> {},
                till |-> [t \in T |-> -1], to |-> [t \in T |-> FALSE], ok |-> [t \in T |-> FALSE], data |-> 0, now |-> 0]
        /\ bad = "" /\ C!MInit(Spurious)
Go(t, p) == [s EXCEPT !.pc[t] = p]
Call(t, k) ==
  /\ s.pc[t] = "idle" /\ s.left[t] > 0
  /\ CASE k = "l" -> s' = [Go(t, "lock") EXCEPT !.left[t] = @ - 1] /\ Obs(C!Ask(t), "Ask")
       [] k = "try" -> s' = [Go(t, "try") EXCEPT !.left[t] = @ - 1] /\ Obs(C!TryB(t), "TryB")
       [] k = "h" -> s' = [s EXCEPT !.left[t] = @ - 1] /\ Obs(C!Held(t, s.rec = t), "Held")
Lock(t) == s.pc[t] = "lock" /\ s.own = 0 /\ s' = [Go(t, "rec") EXCEPT !.own = t] /\ Silent
Record(t) == s.pc[t] = "rec" /\ s' = [Go(t, "got") EXCEPT !.rec = t] /\ Silent
Got(t) == s.pc[t] = "got" /\ s' = Go(t, "in") /\ Obs(C!Got(t, s.data), "Got")
Try(t) == /\ s.pc[t] = "try" /\ Silent
          /\ s' = IF s.own = 0 THEN [Go(t, "tryrec") EXCEPT !.own = t] ELSE [Go(t, "tryret") EXCEPT !.ok[t] = FALSE]
TryRec(t) == s.pc[t] = "tryrec" /\ s' = [Go(t, "tryret") EXCEPT !.rec = IF Mutant = "tryunrecorded" THEN @ ELSE t, !.ok[t] = TRUE] /\ Silent
TryRet(t) == /\ s.pc[t] = "tryret" /\ s' = Go(t, IF s.ok[t] THEN "tryin" ELSE "idle")
             /\ Obs(C!TryE(t, s.ok[t]), "TryE")
TryIn(t) == s.pc[t] = "tryin" /\ s' = Go(t, "in") /\ Obs(C!Got(t, s.data), "Got by try")
(* inside *)
Wake1 == IF s.cv = {} THEN {{}} ELSE {s.cv \ {x} : x \in s.cv}
Inside(t, k) ==
  /\ s.pc[t] = "in" /\ k # "out" /\ s.left[t] > 0
  /\ LET u == [s EXCEPT !.left[t] = @ - 1] IN
     CASE k = "h" -> s' = u /\ Obs(C!Held(t, s.rec = t), "Held inside")
       [] k = "w" -> /\ s' = [u EXCEPT !.pc[t] = "wun", !.data = @ + 1, !.till[t] = -1]
                     /\ Obs(C!WaitB(t, s.data + 1, -1, s.now), "WaitB")
       [] k = "wt" -> /\ s' = [u EXCEPT !.pc[t] = "wun", !.data = @ + 1, !.till[t] = s.now + (IF Mutant = "short" THEN 0 ELSE Us)]
                      /\ Obs(C!WaitB(t, s.data + 1, Us, s.now), "timed WaitB")
       [] k = "n" -> (\E c \in Wake1 : s' = [u EXCEPT !.cv = c]) /\ Obs(C!Note(t, FALSE), "Note")
       [] k = "N" -> (\E c \in (IF Mutant = "nobroadcast" THEN Wake1 ELSE {{}}) : s' = [u EXCEPT !.cv = c]) /\ Obs(C!Note(t, TRUE), "Note all")
(* a wait: erase the holder; release and sleep in one step; come back *)
WUn(t) == s.pc[t] = "wun" /\ s' = [Go(t, "wsleep") EXCEPT !.rec = 0] /\ Silent
WSleep(t) == s.pc[t] = "wsleep" /\ s' = [Go(t, "zzz") EXCEPT !.own = 0, !.cv = @ \cup {t}, !.to[t] = FALSE] /\ Silent
Expire(t) == /\ s.pc[t] = "zzz" /\ t \in s.cv /\ s.till[t] >= 0 /\ s.now >= s.till[t] /\ Silent
             /\ s' = [s EXCEPT !.cv = @ \ {t}, !.to[t] = TRUE]
Spurn(t) == s.pc[t] = "zzz" /\ t \in s.cv /\ Spurious /\ s' = [s EXCEPT !.cv = @ \ {t}] /\ Silent
Again(t) == s.pc[t] = "zzz" /\ t \notin s.cv /\ s.own = 0 /\ Silent
            /\ s' = [Go(t, "wrec") EXCEPT !.own = t]
WRec(t) == s.pc[t] = "wrec" /\ s' = [Go(t, "wret") EXCEPT !.rec = IF Mutant = "waitunrecorded" THEN @ ELSE t] /\ Silent
WRet(t) == /\ s.pc[t] = "wret" /\ s' = Go(t, "in")
           /\ Obs(C!WaitE(t, s.data, s.to[t], s.now), "WaitE")
Out(t) == s.pc[t] = "in" /\ s' = [Go(t, "unrec") EXCEPT !.data = @ + 1] /\ Obs(C!Rel(t, s.data + 1), "Rel")
UnRec(t) == s.pc[t] = "unrec" /\ s' = [Go(t, "unlock") EXCEPT !.rec = IF Mutant = "unrecordlate" THEN @ ELSE 0] /\ Silent
Unlock(t) == s.pc[t] = "unlock" /\ s' = [Go(t, "free") EXCEPT !.own = 0] /\ Silent
Free(t) == /\ s.pc[t] = "free" /\ s' = [Go(t, "idle") EXCEPT !.rec = IF Mutant = "unrecordlate" THEN 0 ELSE @]
           /\ Obs(C!Free(t), "Free")
Tick == s.now < MaxNow /\ s' = [s EXCEPT !.now = @ + 1] /\ Silent
Resting(t) == s.pc[t] = "idle" \/ (s.pc[t] = "zzz" /\ t \in s.cv /\ s.till[t] < 0)
Quiet == /\ \A t \in T : Resting(t)
         /\ Obs(C!Quiet(Cardinality({t \in T : s.pc[t] # "idle"})), "Quiet") /\ UNCHANGED s
Step(t) == Lock(t) \/ Record(t) \/ Got(t) \/ Try(t) \/ TryRec(t) \/ TryRet(t) \/ TryIn(t) \/ WUn(t) \/ WSleep(t) \/ Expire(t)
           \/ Spurn(t) \/ Again(t) \/ WRec(t) \/ WRet(t) \/ Out(t) \/ UnRec(t) \/ Unlock(t) \/ Free(t)
Next == Quiet \/ Tick \/ \E t \in T : Step(t) \/ (\E k \in Kinds : Call(t, k)) \/ (\E k \in In : Inside(t, k))
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Exclusive == Cardinality({t \in T : s.pc[t] \in {"in", "got", "rec", "tryin", "tryrec", "wun", "wsleep", "wrec", "wret", "unrec", "unlock"}}) <= 1
HolderRight == \A t \in T : s.pc[t] = "in" => s.rec = t
=============================================================================
