----------------------------- MODULE ThrPoolImpl -----------------------------
(* The thread pool as kanon implements it: a bounded queue under a mutex with*)
(* two conditions; workers take tasks until the pool is quitting and nothing *)
(* is left.  ThrPool (P22) observes.  The clients end before the pool does.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, Workers, Q, Ops, MainOps, TaskOps, Spurious, Mutant
VARIABLES s, q, n, ws, clients, pushing, before, acc, late, run, done, del, bad
C == INSTANCE ThrPool
mv == <<q, n, ws, clients, pushing, before, acc, late, run, done, del>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
Main == 0
T == Clients \cup Workers \cup {Main}
(* pc: "idle", "push" (in Push), "full" (asleep there), "pushed" (about to return);
   workers: "none", "pop", "empty" (asleep), "have" (took a task), "run", "exit";
   the main thread also "del", "join" *)
Init == /\ s = [pc |-> [t \in T |-> IF t \in Workers THEN "none" ELSE "idle"], left |-> [t \in T |-> IF t = Main THEN MainOps ELSE IF t \in Clients THEN Ops ELSE TaskOps],
                tk |-> [t \in T |-> 0], own |-> [t \in T |-> 0], tasks |-> <<>>, nf |-> {}, ne |-> {}, quit |-> FALSE, nid |-> 1, started |-> FALSE]
        /\ bad = ""
        /\ q = Q /\ n = 0 /\ ws = {} /\ clients = {Main} /\ pushing = <<>> /\ before = <<>> /\ acc = {} /\ late = {}
        /\ run = <<>> /\ done = {} /\ del = "no"
Go(t, p) == [s EXCEPT !.pc[t] = p]
Start == /\ s.pc[Main] = "idle" /\ ~s.started
         /\ s' = [s EXCEPT !.started = TRUE, !.pc = [t \in T |-> IF t \in Workers THEN "pop" ELSE s.pc[t]]]
         /\ Obs(C!Start(Cardinality(Workers)), "Start")
(* a task may push as well *)
MayPush(t) == s.left[t] > 0 /\ (IF t \in Workers THEN s.pc[t] = "run" ELSE s.pc[t] = "idle")
Push(t) == /\ MayPush(t)
           /\ s' = [Go(t, "push") EXCEPT !.left[t] = @ - 1, !.tk[t] = s.nid, !.nid = @ + 1]
           /\ Obs(C!PushB(t, s.nid), "PushB")
Wake1(S) == IF S = {} THEN {{}} ELSE {S \ {x} : x \in S}
Enq(t) == \E ne \in (IF Mutant = "nowakepush" \/ (Mutant = "wakefirst" /\ s.tasks # <<>>) THEN {s.ne} ELSE Wake1(s.ne)) :
            s' = [Go(t, "pushed") EXCEPT !.tasks = IF Mutant = "lifo" THEN <<s.tk[t]>> \o @ ELSE Append(@, s.tk[t]), !.ne = ne, !.nf = @ \ {t}]
PushSec(t) ==
  /\ s.pc[t] = "push" \/ (s.pc[t] = "full" /\ (t \notin s.nf \/ Spurious))
  /\ IF Len(s.tasks) >= (IF Mutant = "offone" THEN Q + 1 ELSE Q) /\ ~(Mutant = "iffull" /\ s.pc[t] = "full")
     THEN IF s.quit THEN s' = [Go(t, "pushed") EXCEPT !.nf = @ \ {t}] ELSE s' = [Go(t, "full") EXCEPT !.nf = @ \cup {t}]
     ELSE Enq(t)
  /\ Silent
PushRet(t) == /\ s.pc[t] = "pushed" /\ s' = Go(t, IF t \in Workers THEN "run" ELSE "idle")
              /\ Obs(C!PushE(t, s.tk[t]), "PushE")
PopSec(t) ==
  /\ s.pc[t] = "pop" \/ (s.pc[t] = "empty" /\ (t \notin s.ne \/ Spurious))
  /\ Silent
  /\ IF Mutant = "quitfirst" /\ s.quit THEN s' = [Go(t, "exit") EXCEPT !.ne = @ \ {t}]
     ELSE IF s.tasks = <<>> /\ ~(Mutant = "ifempty" /\ s.pc[t] = "empty")
     THEN IF s.quit THEN s' = [Go(t, "exit") EXCEPT !.ne = @ \ {t}] ELSE s' = [Go(t, "empty") EXCEPT !.ne = @ \cup {t}]
     ELSE IF s.tasks = <<>> THEN s' = [Go(t, "exit") EXCEPT !.ne = @ \ {t}]
     ELSE \E nf \in (IF Mutant = "nowakepop" \/ (Mutant = "wakewhenempty" /\ Len(s.tasks) > 1) THEN {s.nf} ELSE Wake1(s.nf)) :
            s' = [Go(t, "have") EXCEPT !.own[t] = Head(s.tasks), !.tasks = IF Mutant = "nopop" THEN @ ELSE Tail(@), !.nf = nf, !.ne = @ \ {t}]
RunB(t) == s.pc[t] = "have" /\ s' = Go(t, "run") /\ Obs(C!RunB(t, s.own[t]), "RunB")
RunE(t) == t \in Workers /\ s.pc[t] = "run" /\ s' = Go(t, "pop") /\ Obs(C!RunE(t, s.own[t]), "RunE")
DelB == /\ s.pc[Main] = "idle" /\ (\A c \in Clients : s.left[c] = 0 /\ s.pc[c] = "idle")
        /\ s' = Go(Main, "del") /\ Obs(C!DelB, "DelB")
DelSec == /\ s.pc[Main] = "del" /\ Silent
          /\ s' = [Go(Main, "join") EXCEPT !.quit = TRUE, !.ne = IF Mutant = "quitone" /\ @ # {} THEN @ \ {CHOOSE x \in @ : TRUE} ELSE {}, !.nf = IF Mutant = "quitnotfull" THEN @ ELSE {}]
Join == /\ s.pc[Main] = "join" /\ (\A w \in Workers : s.pc[w] \in {"none", "exit"} \/ Mutant = "nojoin")
        /\ s' = Go(Main, "gone") /\ Obs(C!DelE, "DelE")
(* a task may also take as long as it likes *)
Resting(t) == s.pc[t] \in {"idle", "none", "exit", "gone", "run"} \/ (s.pc[t] = "full" /\ t \in s.nf) \/ (s.pc[t] = "empty" /\ t \in s.ne)
(* at rest; a destruction that never ends is not at rest *)
Quiet == /\ \A t \in T : Resting(t) \/ s.pc[t] = "join"
         /\ IF s.pc[Main] = "join" /\ ~ENABLED Join /\ (\A w \in Workers : s.pc[w] # "run") THEN UNCHANGED mv /\ bad' = "the destructor hangs" ELSE s.pc[Main] # "join" /\ Obs(C!Quiet, "Quiet")
         /\ UNCHANGED s
Next == \/ Start \/ DelB \/ DelSec \/ Join \/ Quiet
        \/ \E t \in T : Push(t) \/ PushSec(t) \/ PushRet(t) \/ RunE(t)
        \/ \E w \in Workers : PopSec(w) \/ RunB(w)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Bounded == Len(s.tasks) <= Q
=============================================================================
