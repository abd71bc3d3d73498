------------------------------ MODULE LatchImpl ------------------------------
(* The count-down latch as kanon implements it: a count under a mutex and a  *)
(* condition that is notified when the count is not positive any more.       *)
(* Latch (P21) observes.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, N, Ops, Kinds, Resets, Spurious, Mutant
VARIABLES s, up, val, pend, pass, look, bad
C == INSTANCE Latch
mv == <<up, val, pend, pass, look>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
D(k) == CASE k = "cd" -> -1 [] k = "minus 2" -> -2 [] k = "add 1" -> 1 [] k = "incr" -> 1 [] k = "aw 1" -> 1 [] OTHER -> 0
Waits(k) == k \in {"wait", "aw 1"}
Init == /\ s = [pc |-> [t \in T |-> "idle"], op |-> [t \in T |-> "none"], left |-> [t \in T |-> Ops], n |-> N,
                cv |-> {}, got |-> [t \in T |-> 0], resets |-> Resets]
        /\ bad = ""
        /\ up = TRUE /\ val = N /\ pend = <<>> /\ pass = <<>> /\ look = <<>>
Call(t, k) == /\ s.pc[t] = "idle" /\ s.left[t] > 0
              /\ s' = [s EXCEPT !.pc[t] = "sec", !.op[t] = k, !.left[t] = @ - 1]
              /\ IF k = "get" THEN Obs(C!GetB(t), "GetB")
                 ELSE IF Waits(k) THEN Obs(C!WaitB(t, D(k)), "WaitB") ELSE Obs(C!OpB(t, D(k)), "OpB")
(* who a change wakes *)
Woken(n, t) == IF n <= 0 /\ D(s.op[t]) < 0
               THEN CASE Mutant = "one" /\ s.cv # {} -> {s.cv \ {x} : x \in s.cv}
                      [] Mutant = "atzero" -> {IF n = 0 THEN {} ELSE s.cv}
                      [] Mutant = "nonotify" -> {s.cv}
                      [] OTHER -> {{}}
               ELSE {s.cv}
Sec(t) ==
  /\ s.pc[t] = "sec" /\ Silent
  /\ LET k == s.op[t] n == s.n + D(k) IN
     \E cv \in Woken(n, t) :
       s' = [s EXCEPT !.n = n, !.got[t] = n, !.cv = IF Waits(k) /\ n > 0 THEN cv \cup {t} ELSE cv,
                      !.pc[t] = IF Waits(k) /\ n > 0 THEN "wait" ELSE "ret"]
Back(t) == /\ s.pc[t] = "wait" /\ (t \notin s.cv \/ Spurious) /\ Silent
           /\ s' = IF s.n > 0 /\ Mutant # "if" THEN [s EXCEPT !.cv = @ \cup {t}]
                   ELSE [s EXCEPT !.cv = @ \ {t}, !.pc[t] = "ret"]
Ret(t) == /\ s.pc[t] = "ret" /\ s' = [s EXCEPT !.pc[t] = "idle"]
          /\ LET k == s.op[t] IN
             IF k = "get" THEN Obs(C!GetE(t, s.got[t]), "GetE")
             ELSE IF Waits(k) THEN Obs(C!WaitE(t), "WaitE") ELSE Obs(C!OpE(t), "OpE")
Resting(t) == s.pc[t] = "idle" \/ (s.pc[t] = "wait" /\ t \in s.cv)
(* the count is set anew while nobody is inside a call other than a wait *)
Reset(n) == /\ s.resets > 0 /\ (\A t \in T : Resting(t))
            /\ s' = [s EXCEPT !.n = n, !.resets = @ - 1, !.cv = IF n <= 0 /\ Mutant # "mutereset" THEN {} ELSE @]
            /\ Obs(C!Reset(n), "Reset")
Quiet == /\ \A t \in T : Resting(t)
         /\ Obs(C!Quiet(Cardinality({t \in T : s.pc[t] # "idle"})), "Quiet") /\ UNCHANGED s
Next == Quiet \/ (\E n \in {0, 1, 2} : Reset(n)) \/ \E t \in T : Sec(t) \/ Back(t) \/ Ret(t) \/ \E k \in Kinds : Call(t, k)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Sec(t) \/ Ret(t) \/ (Back(t) /\ s' # s))
Conforms == bad = ""
(* whoever waits is released once the count is, and stays, not positive *)
Released == \A t \in T : [](<>[](s.n <= 0) => <>(s.pc[t] # "wait"))
=============================================================================
