----------------------------- MODULE RwLockImpl -----------------------------
(* The reader-writer lock as kanon implements it: a mutex, a flag for the    *)
(* writer that is in or waits for the readers, a count of readers, and two   *)
(* conditions.  Sections under the mutex are one step up to a wait; waits    *)
(* may return spuriously.  RwLock (P20) observes.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, Ops, Spurious, Mutant
VARIABLES s, readers, writers, asking, val, bad
C == INSTANCE RwLock
mv == <<readers, writers, asking, val>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
(* cw, cr: waiting on the two conditions; wk: woken, to take the mutex again *)
Init == /\ s = [pc |-> [t \in T |-> "idle"], left |-> [t \in T |-> Ops], flag |-> FALSE, rn |-> 0,
                cw |-> {}, cr |-> {}, data |-> 0]
        /\ bad = "" /\ C!RwInit
Call(t, k) == /\ s.pc[t] = "idle" /\ s.left[t] > 0
              /\ s' = [s EXCEPT !.pc[t] = k, !.left[t] = @ - 1] /\ Obs(C!Ask(t), "Ask")
Go(t, p) == [s EXCEPT !.pc[t] = p]
(* sections of RLock, WLock *)
RLock(t) == /\ s.pc[t] = "r" /\ Silent
            /\ s' = IF s.flag THEN [Go(t, "rw") EXCEPT !.cw = @ \cup {t}] ELSE [Go(t, "rin") EXCEPT !.rn = @ + 1]
WLock(t) == /\ s.pc[t] = "w" /\ Silent
            /\ s' = IF s.flag /\ Mutant # "nocheck" THEN [Go(t, "ww") EXCEPT !.cw = @ \cup {t}]
                    ELSE LET f == Mutant # "lateflag" IN
                         IF s.rn > 0 THEN [Go(t, "wr") EXCEPT !.cr = @ \cup {t}, !.flag = @ \/ f]
                         ELSE [Go(t, "win") EXCEPT !.flag = TRUE]
(* a wait returns: woken (no longer in the set) or spuriously *)
Back(t) ==
  /\ Silent
  /\ \/ /\ s.pc[t] = "rw" /\ (t \notin s.cw \/ Spurious)
        /\ s' = IF s.flag /\ Mutant # "ifr" THEN [s EXCEPT !.cw = @ \cup {t}]
                ELSE [Go(t, "rin") EXCEPT !.rn = @ + 1, !.cw = @ \ {t}]
     \/ /\ s.pc[t] = "ww" /\ (t \notin s.cw \/ Spurious)
        /\ s' = IF s.flag /\ Mutant # "ifw" THEN [s EXCEPT !.cw = @ \cup {t}]
                ELSE IF s.rn > 0 THEN [Go(t, "wr") EXCEPT !.cr = @ \cup {t}, !.cw = @ \ {t}, !.flag = @ \/ Mutant # "lateflag"]
                ELSE [Go(t, "win") EXCEPT !.flag = TRUE, !.cw = @ \ {t}]
     \/ /\ s.pc[t] = "wr" /\ (t \notin s.cr \/ Spurious)
        /\ s' = IF s.rn > 0 /\ Mutant # "ifwr" THEN [s EXCEPT !.cr = @ \cup {t}]
                ELSE [Go(t, "win") EXCEPT !.flag = TRUE, !.cr = @ \ {t}]
Got(t) ==
          /\ \/ s.pc[t] = "rin" /\ s' = Go(t, "rcs") /\ Obs(C!GotR(t, s.data), "GotR")
             \/ s.pc[t] = "win" /\ s' = Go(t, "wcs") /\ Obs(C!GotW(t, s.data), "GotW")
Rel(t) ==
          /\ \/ s.pc[t] = "rcs" /\ s' = Go(t, "ru") /\ Obs(C!RelR(t, s.data), "RelR")
             \/ s.pc[t] = "wcs" /\ s' = [Go(t, "wu") EXCEPT !.data = @ + 1] /\ Obs(C!RelW(t, s.data + 1), "RelW")
Wake1(S) == IF S = {} THEN {{}} ELSE {S \ {x} : x \in S}
RUnlock(t) == /\ s.pc[t] = "ru" /\ Silent
              /\ \E c \in IF s.flag /\ s.rn = 1 /\ Mutant # "nowakew" THEN Wake1(s.cr) ELSE {s.cr} :
                   s' = [Go(t, "idle") EXCEPT !.rn = @ - 1, !.cr = c]
WUnlock(t) == /\ s.pc[t] = "wu" /\ Silent
              /\ \E c \in IF Mutant = "one" THEN Wake1(s.cw) ELSE {{}} :
                   s' = [Go(t, "idle") EXCEPT !.flag = FALSE, !.cw = c]
Step(t) == RLock(t) \/ WLock(t) \/ Back(t) \/ Got(t) \/ Rel(t) \/ RUnlock(t) \/ WUnlock(t)
(* at rest: everybody idle, or asleep without having been woken *)
Resting(t) == s.pc[t] = "idle" \/ (s.pc[t] \in {"rw", "ww"} /\ t \in s.cw) \/ (s.pc[t] = "wr" /\ t \in s.cr)
Quiet == /\ \A t \in T : Resting(t)
         /\ Obs(C!Quiet(Cardinality({t \in T : s.pc[t] # "idle"})), "Quiet") /\ UNCHANGED s
Next == Quiet \/ \E t \in T : Step(t) \/ \E k \in {"r", "w"} : Call(t, k)
Fair(t) == WF_vars(RLock(t) \/ WLock(t) \/ Got(t) \/ Rel(t) \/ RUnlock(t) \/ WUnlock(t) \/ (Back(t) /\ s' # s))
Spec == Init /\ [][Next]_vars /\ \A t \in T : Fair(t)
Conforms == bad = ""
Exclusive == (writers # {} => readers = {} /\ Cardinality(writers) = 1)
(* every call ends: nobody is stuck *)
Served == \A t \in T : (s.pc[t] # "idle") ~> (s.pc[t] = "idle")
=============================================================================
