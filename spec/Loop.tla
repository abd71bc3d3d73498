-------------------------------- MODULE Loop --------------------------------
(* An event loop as kanon implements it: a task queue under a lock, an      *)
(* eventfd that wakes the poll up, one drain per round and one after quit.  *)
(* The contracts LoopTasks (P06) and LoopQuit (P07) ride along as observers *)
(* of every event the implementation produces.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Foreign,   \* other threads (numbers > 0)
  Ops,       \* operations per foreign thread
  InitOps,   \* operations of the loop thread before it starts the loop
  BodyOps,   \* operations issued from tasks and I/O callbacks, in all
  Kinds,     \* operations: subset of {"q", "r", "quit"}
  Ios,       \* how often a descriptor becomes readable
  Mutant
VARIABLES
  s, hist,
  q, late, now, stack, st, quitting,     \* LoopTasks
  qst, req, open, owed,                  \* LoopQuit
  bad
T == INSTANCE LoopTasks
Q == INSTANCE LoopQuit WITH st <- qst
tv == <<q, late, now, stack, st, quitting>>
qv == <<qst, req, open, owed>>
vars == <<s, hist, tv, qv, bad>>
uT == UNCHANGED tv
uQ == UNCHANGED qv
Obs(A, B, name) == IF ENABLED A /\ ENABLED B THEN A /\ B /\ UNCHANGED bad ELSE UNCHANGED <<tv, qv>> /\ bad' = name
Silent == UNCHANGED <<tv, qv, bad>>
Log(x) == hist' = Append(hist, x)
NoLog == UNCHANGED hist

(* lp: the loop thread's program, innermost first:
   <<"ops", who>>    running user code (init, a task, an I/O callback)
   <<"end", id>>     a task ends     <<"rret", id>>  a run-now call returns *)
Init ==
  /\ s = [pc |-> "new", tasks |-> <<>>, batch |-> <<>>, ev |-> 0, io |-> 0, ready |-> {}, calling |-> FALSE, looping |-> FALSE,
          quit |-> FALSE, lock |-> 0, lp |-> <<<<"ops", -1>>>>, th |-> [t \in Foreign |-> <<"idle">>],
          left |-> [t \in Foreign |-> Ops], ileft |-> InitOps, bleft |-> BodyOps, nid |-> 1, eio |-> Ios]
  /\ hist = <<>> /\ bad = ""
  /\ T!TInit(Foreign \cup {0}) /\ Q!QInit
Awake == s.ev > 0 \/ s.io > 0
Resting == s.pc = "poll" /\ ~Awake /\ s.lp = <<>>
----------------------------------------------------------------------------
(* another thread *)
FCall(t) ==
  /\ s.th[t] = <<"idle">> /\ s.left[t] > 0
  /\ \E k \in Kinds :
      /\ Log(<<t, k, s.nid, Resting>>)
      /\ s' = [s EXCEPT !.th[t] = <<k, s.nid>>, !.left[t] = @ - 1, !.nid = IF k = "quit" THEN @ ELSE @ + 1]
      /\ CASE k = "q" -> Obs(T!Queue(t, s.nid), Q!QueueCall(s.nid), "QCall")
           [] k = "r" -> Obs(T!RunCall(t, s.nid), Q!QueueCall(s.nid), "RCall")
           [] k = "quit" -> Obs(T!Quit, Q!Quit, "QuitCall")
(* append under the lock, wake up before it is released *)
FDo(t) ==
  /\ \/ /\ s.th[t][1] \in {"q", "r"} /\ s.lock = 0
        /\ s' = [s EXCEPT !.tasks = Append(@, <<s.th[t][2], t>>), !.lock = t, !.th[t] = <<"wake", s.th[t][2], s.th[t][1]>>]
     \/ /\ s.th[t][1] = "quit" /\ (s.lock = 0 \/ s.quit)
        /\ s' = IF s.quit THEN [s EXCEPT !.th[t] = <<"idle">>]
                ELSE [s EXCEPT !.quit = TRUE, !.lock = t, !.th[t] = <<"wake", 0, "quit">>]
     \/ /\ s.th[t][1] = "wake"
        /\ LET w == ~(Mutant = "nowakequit" /\ s.th[t][3] = "quit") /\ ~(Mutant = "wakewhenpolling" /\ s.pc # "poll") IN
           s' = [s EXCEPT !.ev = IF w THEN @ + 1 ELSE @, !.lock = 0, !.th[t] = IF s.th[t][3] = "quit" THEN <<"idle">> ELSE <<"ret", s.th[t][2], s.th[t][3]>>]
  /\ Silent /\ NoLog
FRet(t) ==
  /\ s.th[t][1] = "ret" /\ s' = [s EXCEPT !.th[t] = <<"idle">>] /\ NoLog
  /\ Obs(IF s.th[t][3] = "r" THEN T!RunRet(t, s.th[t][2]) ELSE uT, Q!QueueRet(s.th[t][2]), "QRet")
----------------------------------------------------------------------------
(* the loop thread: user code *)
Top == Head(s.lp)
Budget(x) == IF x = -1 THEN s.ileft > 0 ELSE s.bleft > 0
Spend(x, r) == IF x = -1 THEN [r EXCEPT !.ileft = @ - 1] ELSE [r EXCEPT !.bleft = @ - 1]
Wakes == s.calling \/ ~s.looping
UserOp ==
  /\ s.lp # <<>> /\ Top[1] = "ops" /\ Budget(Top[2]) /\ s.lock = 0
  /\ \E k \in Kinds :
      /\ Log(<<-100 - Top[2], k, s.nid, FALSE>>)
      /\ LET id == s.nid b == Spend(Top[2], s) IN
         CASE k = "q" -> /\ s' = [b EXCEPT !.nid = @ + 1, !.tasks = Append(@, <<id, 0>>), !.lp = <<<<"qret", id>>>> \o @,
                                     !.ev = IF (Wakes /\ Mutant # "nowakecalling") \/ (Mutant = "nowakecalling" /\ ~s.looping) THEN @ + 1 ELSE @]
                         /\ Obs(T!Queue(0, id), Q!QueueCall(id), "QCall loop")
           [] k = "r" -> /\ s' = [b EXCEPT !.nid = @ + 1, !.lp = <<<<"run", id>>, <<"rret", id>>>> \o @]
                         /\ Obs(T!RunCall(0, id), Q!QueueCall(id), "RCall loop")
           [] k = "quit" -> /\ s' = [b EXCEPT !.quit = TRUE] /\ Obs(T!Quit, Q!Quit, "Quit loop")
UserStep ==
  /\ s.lp # <<>> /\ NoLog
  /\ LET pop == [s EXCEPT !.lp = Tail(@)] id == Top[2] IN
     CASE Top[1] = "ops" -> s' = pop /\ Silent
       [] Top[1] = "qret" -> s' = pop /\ Obs(uT, Q!QueueRet(id), "QRet loop")
       [] Top[1] = "rret" -> s' = pop /\ Obs(T!RunRet(0, id), Q!QueueRet(id), "RRet loop")
       [] Top[1] = "end" -> s' = pop /\ Obs(T!ExecEnd(id), uQ, "ExecEnd")
       [] Top[1] = "run" -> s' = [pop EXCEPT !.lp = <<<<"ops", id>>, <<"end", id>>>> \o @] /\ Obs(T!Exec(id, TRUE), Q!Exec(id), "Exec")
(* the loop thread: the loop *)
Free == s.lp = <<>>
Start == Free /\ s.pc = "new" /\ s' = [s EXCEPT !.pc = "head", !.looping = TRUE] /\ Obs(T!Start, Q!Start, "StartCall") /\ NoLog
Head_ == /\ Free /\ s.pc = "head" /\ NoLog
         /\ IF s.quit THEN s' = [s EXCEPT !.pc = IF Mutant = "nodrain" THEN "over" ELSE "drain"] /\ Silent
            ELSE s' = [s EXCEPT !.pc = "poll"] /\ Obs(T!Poll, uQ, "PollB")
Poll == /\ Free /\ s.pc = "poll" /\ Awake /\ NoLog
        /\ s' = [s EXCEPT !.pc = "disp", !.ready = (IF s.ev > 0 THEN {"ev"} ELSE {}) \cup (IF s.io > 0 THEN {"io"} ELSE {})] /\ Silent
Disp == /\ Free /\ s.pc = "disp" /\ NoLog /\ Silent
        /\ IF s.ready = {} THEN s' = [s EXCEPT !.pc = "swap"]
           ELSE \E r \in s.ready :
                IF r = "ev" THEN s' = [s EXCEPT !.ready = @ \ {r}, !.ev = 0]
                ELSE s' = [s EXCEPT !.ready = @ \ {r}, !.io = @ - 1, !.lp = <<<<"ops", -2>>>>]
Swap == /\ Free /\ s.pc \in {"swap", "drain"} /\ s.lock = 0 /\ NoLog /\ Silent
        /\ s' = [s EXCEPT !.batch = s.tasks, !.tasks = <<>>, !.calling = TRUE, !.pc = IF @ = "swap" THEN "run" ELSE "drun"]
Run == /\ Free /\ s.pc \in {"run", "drun"} /\ NoLog
       /\ IF s.batch # <<>>
          THEN LET b == IF Mutant = "lifo" THEN s.batch[Len(s.batch)] ELSE Head(s.batch)
                   r == IF Mutant = "lifo" THEN SubSeq(s.batch, 1, Len(s.batch) - 1) ELSE Tail(s.batch) IN
               s' = [s EXCEPT !.batch = r, !.lp = <<<<"run", b[1]>>>>] /\ Silent
          ELSE IF Mutant = "drainall" /\ s.tasks # <<>> /\ s.lock = 0 THEN s' = [s EXCEPT !.batch = s.tasks, !.tasks = <<>>] /\ Silent
          ELSE s' = [s EXCEPT !.calling = FALSE, !.pc = IF @ = "run" THEN "head" ELSE "over"] /\ Silent
Return == /\ Free /\ s.pc = "over" /\ NoLog
          /\ s' = [s EXCEPT !.pc = "end", !.looping = FALSE] /\ Obs(T!Ended, Q!Return, "StartRet")
Outside == s.eio > 0 /\ s' = [s EXCEPT !.eio = @ - 1, !.io = @ + 1] /\ Log(<<-1, "io", 0, Resting>>) /\ Silent
Idle == \A t \in Foreign : s.th[t] = <<"idle">>
Quiet == /\ Idle /\ (Resting \/ s.pc = "end") /\ Obs(T!Quiet, Q!Quiet, "Quiet") /\ UNCHANGED <<s, hist>>
LoopStep == UserOp \/ UserStep \/ Start \/ Head_ \/ Poll \/ Disp \/ Swap \/ Run \/ Return
Next == LoopStep \/ Outside \/ Quiet \/ \E t \in Foreign : FCall(t) \/ FDo(t) \/ FRet(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(LoopStep) /\ \A t \in Foreign : WF_vars(FDo(t) \/ FRet(t))

Conforms == bad = ""
ContractInv == T!OnceEach /\ T!LateAreQueued /\ Q!EndedMeansAsked
NoLostWake == s.pc = "poll" /\ s.lock = 0 /\ Idle /\ (s.tasks # <<>> \/ s.quit) => s.ev > 0
(* liveness *)
QuitReturns == (s.quit /\ s.pc # "new") ~> s.pc = "end"
TasksRun == \A t \in Foreign \cup {0} : (q[t] # <<>> /\ ~s.quit) ~> (q[t] = <<>> \/ s.quit)
View == <<s, tv, qv, bad>>
=============================================================================
