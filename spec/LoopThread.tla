----------------------------- MODULE LoopThread -----------------------------
(* Loop threads and the pool as kanon implements them: the starter waits on *)
(* a condition for the loop's address, the background thread publishes it   *)
(* after the initialisation callback and withdraws it when the loop has     *)
(* returned, the destructor quits a loop that is still published and always *)
(* joins.  LoopThreads (P14) observes.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pool, N, WantInit, MainOps, InitKinds, TaskOps, Mutant
VARIABLES s, hist, st, pool, n, wantinit, starter, th, order, handed, left, open, bad
C == INSTANCE LoopThreads
mv == <<st, pool, n, wantinit, starter, th, order, handed, left, open>>
vars == <<s, hist, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
NoLog == UNCHANGED hist
Log(x) == hist' = Append(hist, x)
K == 0..(N - 1)
Main == 1
Tid(k) == 10 + k
(* per loop: ptr published, alive object, quit flag, task queue, pc of its thread *)
Init ==
  /\ s = [main |-> "new", i |-> 0, next |-> 0, cur |-> -1, ops |-> MainOps, bops |-> TaskOps, nid |-> 1,
          ptr |-> [k \in K |-> FALSE], alive |-> [k \in K |-> FALSE], quited |-> [k \in K |-> FALSE], quit |-> [k \in K |-> FALSE],
          tasks |-> [k \in K |-> <<>>], pc |-> [k \in K |-> "none"], uaf |-> FALSE]
  /\ hist = <<>> /\ bad = "" /\ C!PInit
----------------------------------------------------------------------------
(* the thread that owns the loop thread or the pool *)
StartCall == /\ s.main = "new" /\ s' = [s EXCEPT !.main = "spawn"] /\ Log(<<"start">>)
             /\ Obs(C!StartCall(Main, Pool, N, WantInit), "StartCall")
Spawn == /\ s.main = "spawn" /\ NoLog
         /\ IF s.i = N THEN /\ s' = [s EXCEPT !.main = "up"]
                            /\ Obs(C!StartRet(IF Pool THEN -1 ELSE IF s.ptr[0] THEN 0 ELSE -1), "StartRet")
            ELSE s' = [s EXCEPT !.pc[s.i] = "ctor", !.main = "wait"] /\ Silent
Wait == /\ s.main = "wait" /\ (s.ptr[s.i] \/ s.quited[s.i] \/ Mutant = "nowait") /\ NoLog /\ Silent
        /\ s' = [s EXCEPT !.main = "spawn", !.i = @ + 1]
NextOp == /\ s.main = "up" /\ s.ops > 0 /\ Log(<<"next">>)
          /\ LET k == IF Pool THEN s.next ELSE 0
                 got == IF N = 0 THEN 100 ELSE IF s.ptr[k] THEN k ELSE -1 IN
             /\ s' = [s EXCEPT !.ops = @ - 1, !.cur = IF got = 100 THEN -1 ELSE got,
                               !.next = IF N = 0 \/ Mutant = "norotate" THEN @ ELSE (@ + 1) % N]
             /\ Obs(C!Next(got), "Next")
(* the user hands work to a loop it knows is alive (it did not ask it to quit) *)
Usable(k) == k >= 0 /\ k \notin left
QueueOp == /\ s.main = "up" /\ s.ops > 0 /\ Usable(s.cur) /\ Log(<<"q">>)
           /\ s' = [s EXCEPT !.ops = @ - 1, !.nid = @ + 1, !.tasks[s.cur] = Append(@, s.nid), !.uaf = @ \/ ~s.alive[s.cur]]
           /\ Obs(C!Queue(s.cur, s.nid), "Queue")
QuitOp == /\ s.main = "up" /\ s.ops > 0 /\ Usable(s.cur) /\ Log(<<"quit">>)
          /\ s' = [s EXCEPT !.ops = @ - 1, !.quit[s.cur] = TRUE, !.uaf = @ \/ ~s.alive[s.cur]]
          /\ Obs(C!Quit(s.cur), "Quit")
DelCall == /\ s.main = "up" /\ s' = [s EXCEPT !.main = "del", !.i = 0] /\ Log(<<"del">>) /\ Obs(C!DelCall, "DelCall")
Del == /\ s.main = "del" /\ NoLog
       /\ IF s.i = N THEN /\ s' = [s EXCEPT !.main = "gone"]
                          /\ Obs(C!DelRet(Cardinality({k \in K : s.pc[k] # "exit"})), "DelRet")
          ELSE IF s.ptr[s.i] /\ Mutant = "unlockedquit" THEN s' = [s EXCEPT !.main = "quit"] /\ Silent
          ELSE IF s.ptr[s.i] THEN s' = [s EXCEPT !.quit[s.i] = TRUE, !.uaf = @ \/ ~s.alive[s.i], !.main = "join"] /\ Silent
          ELSE s' = [s EXCEPT !.main = IF Mutant = "nojoin" THEN "del" ELSE "join", !.i = IF Mutant = "nojoin" THEN @ + 1 ELSE @] /\ Silent
DelQuit == s.main = "quit" /\ s' = [s EXCEPT !.quit[s.i] = TRUE, !.uaf = @ \/ ~s.alive[s.i], !.main = "join"] /\ Silent /\ NoLog
Join == s.main = "join" /\ s.pc[s.i] = "exit" /\ s' = [s EXCEPT !.main = "del", !.i = @ + 1] /\ Silent /\ NoLog
----------------------------------------------------------------------------
(* the background thread of loop k *)
Bg(k) ==
  /\ NoLog
  /\ CASE s.pc[k] = "ctor" -> s' = [s EXCEPT !.alive[k] = TRUE, !.pc[k] = "init", !.ptr[k] = (Mutant = "earlyptr")] /\ Silent
       [] s.pc[k] = "init" -> /\ s' = [s EXCEPT !.pc[k] = "user"]
                              /\ IF WantInit THEN Obs(C!InitCb(k, Tid(k)), "Init") ELSE Silent
       [] s.pc[k] = "user" -> s' = [s EXCEPT !.pc[k] = "publish"] /\ Silent
       [] s.pc[k] = "publish" -> s' = [s EXCEPT !.ptr[k] = TRUE, !.pc[k] = "loop"] /\ Silent
       [] s.pc[k] = "loop" -> IF s.tasks[k] # <<>>
                              THEN s' = [s EXCEPT !.tasks[k] = Tail(@)] /\ Obs(C!Exec(k, Head(s.tasks[k]), Tid(k)), "Exec")
                              ELSE s.quit[k] /\ s' = [s EXCEPT !.pc[k] = "withdraw"] /\ Silent
       [] s.pc[k] = "withdraw" -> s' = [s EXCEPT !.ptr[k] = FALSE, !.quited[k] = TRUE, !.pc[k] = "dtor"] /\ Silent
       [] s.pc[k] = "dtor" -> s' = [s EXCEPT !.alive[k] = FALSE, !.pc[k] = "exit"] /\ Silent
       [] OTHER -> FALSE
(* the initialisation callback may use the loop *)
User(k) == /\ WantInit /\ s.pc[k] = "user" /\ s.bops > 0
           /\ \E o \in InitKinds :
              /\ Log(<<"init", o>>)
              /\ IF o = "quit" THEN s' = [s EXCEPT !.bops = @ - 1, !.quit[k] = TRUE] /\ Obs(C!Quit(k), "Quit in init")
                 ELSE s' = [s EXCEPT !.bops = @ - 1, !.nid = @ + 1, !.tasks[k] = Append(@, s.nid)] /\ Obs(C!Queue(k, s.nid), "Queue in init")
Resting(k) == s.pc[k] \in {"none", "exit"} \/ (s.pc[k] = "loop" /\ s.tasks[k] = <<>> /\ ~s.quit[k])
Quiet == s.main \in {"up", "gone"} /\ (\A k \in K : Resting(k)) /\ Obs(C!Quiet, "Quiet") /\ UNCHANGED <<s, hist>>
MainStep == StartCall \/ Spawn \/ Wait \/ NextOp \/ QueueOp \/ QuitOp \/ DelCall \/ Del \/ DelQuit \/ Join
Next == MainStep \/ Quiet \/ \E k \in K : Bg(k) \/ User(k)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(MainStep) /\ \A k \in K : WF_vars(Bg(k))
Conforms == bad = ""
NoUseAfterFree == ~s.uaf
ContractInv == C!OwnThreads
AllJoined == s.main = "gone" => \A k \in K : s.pc[k] = "exit"
StartReturns == (s.main = "spawn") ~> (s.main = "up")
DelReturns == (s.main = "del") ~> (s.main = "gone")
View == <<s, mv, bad>>
=============================================================================
