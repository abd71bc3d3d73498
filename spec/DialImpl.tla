------------------------------ MODULE DialImpl ------------------------------
(* The connector as kanon implements it: requests become tasks of the loop,   *)
(* one attempt at a time, a retry timer with a doubling interval, and the two *)
(* interruptions.  Dial (P12) observes.  A time unit is coarse: delays are    *)
(* First, 2 First, ... up to Cap.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS First, Cap, Slack, Foreign, Ops, InOps, Kinds, Tries, MaxNow, Step, Mutant
VARIABLES s, rq, ph, stopped, n, cur, since, sk, bad
C == INSTANCE Dial
mv == <<rq, ph, stopped, n, cur, since, sk>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ s = [pc |-> [t \in Foreign |-> "idle"], rid |-> [t \in Foreign |-> 0], left |-> [t \in Foreign |-> Ops], in |-> InOps, nid |-> 1, nsk |-> 1, tries |-> Tries,
                q |-> <<>>, code |-> <<>>, now |-> 0, state |-> "disc", connect |-> TRUE, timers |-> {}, timer |-> 0, iv |-> First, chan |-> 0, ok |-> FALSE, at |-> 0]
        /\ bad = "" /\ C!DInit
(* another thread's request: called, queued, returned *)
Call(t, k) == /\ s.pc[t] = "idle" /\ s.left[t] > 0
              /\ s' = [s EXCEPT !.left[t] = @ - 1, !.pc[t] = "push", !.rid[t] = s.nid, !.nid = @ + 1] /\ Obs(C!Request(s.nid, k, t), "Request")
Push(t) == s.pc[t] = "push" /\ s' = [s EXCEPT !.pc[t] = "ret", !.q = Append(@, <<rq[s.rid[t]].k, s.rid[t]>>)] /\ Silent
Ret(t) == s.pc[t] = "ret" /\ s' = [s EXCEPT !.pc[t] = "mark"] /\ Obs(C!Ret(s.rid[t]), "Ret")
Mark(t) == s.pc[t] = "mark" /\ s' = [s EXCEPT !.pc[t] = "idle", !.q = Append(@, <<"mark", s.rid[t]>>)] /\ Silent
(* the loop *)
Task == s.code = <<>> /\ s.q # <<>> /\ s' = [s EXCEPT !.code = <<Head(s.q)>>, !.q = Tail(@)] /\ Silent
User(rest) == \E k \in Kinds : /\ s.in > 0 /\ s' = [s EXCEPT !.in = @ - 1, !.nid = @ + 1, !.code = <<<<k, s.nid>>, <<"ret", s.nid>>>> \o rest]
                               /\ Obs(C!Request(s.nid, k, 0), "Request in the loop")
Inside == s.code = <<>> /\ User(<<>>)
Fire == /\ s.code = <<>> /\ \E x \in s.timers : x <= s.now /\ s' = [s EXCEPT !.timers = @ \ {x}, !.code = <<<<"start", 0>>>>] /\ Silent
Event == s.code = <<>> /\ s.chan # 0 /\ s.now >= s.at /\ s' = [s EXCEPT !.code = <<<<"wr">>>>] /\ Silent
Do(more) == [s EXCEPT !.code = more \o Tail(@)]
Cancel(u) == [u EXCEPT !.timers = @ \ {u.timer}, !.timer = 0]
Effect(i) == IF i = 0 THEN Silent ELSE Obs(C!Effect(i) /\ (rq[i].k = "start" /\ ph = "wait" => ph' = (IF stopped THEN "wait" ELSE "go")), "Effect")
Interrupt(u) == LET v == Cancel(u) IN IF v.state = "ing" THEN [v EXCEPT !.state = "disc", !.chan = 0] ELSE v
Left == IF s.state = "ing" THEN <<<<"cls", s.chan>>>> ELSE <<>>
Run ==
  /\ s.code # <<>>
  /\ LET k == Head(s.code)[1]
         i == IF Len(Head(s.code)) > 1 THEN Head(s.code)[2] ELSE 0 IN
     CASE k = "mark" -> s' = Do(<<>>) /\ Obs(C!Marker(i), "Marker")
       [] k = "ret" -> s' = Do(<<>>) /\ Obs(C!Ret(i), "Ret")
       [] k = "start" -> /\ s' = IF ~s.connect THEN Do(<<>>)
                                 ELSE LET u == IF Mutant = "nocancel" THEN s ELSE Cancel(s) IN
                                      [u EXCEPT !.code = (IF u.state = "disc" \/ Mutant = "twice" THEN <<<<"conn">>>> ELSE <<>>) \o Tail(@)]
                         /\ Effect(i)
       [] k = "stop" -> /\ s' = IF Mutant = "stopkeep" THEN [Cancel(Do(<<>>)) EXCEPT !.connect = FALSE]
                                ELSE [Interrupt(Do(Left)) EXCEPT !.connect = FALSE]
                        /\ Effect(i)
       [] k = "rest" -> /\ s' = [(IF Mutant = "restkeep" THEN Cancel(Do(<<<<"start", 0>>>>)) ELSE Interrupt(Do(Left \o <<<<"start", 0>>>>)))
                                 EXCEPT !.connect = TRUE, !.state = "disc", !.iv = IF Mutant = "keepiv" THEN @ ELSE First]
                        /\ Effect(i)
       [] k = "conn" -> IF s.tries = 0 THEN s' = [s EXCEPT !.code = <<<<"over">>>>] /\ Silent
                        ELSE s' = [Do(<<<<"try", s.nsk>>>>) EXCEPT !.nsk = @ + 1, !.tries = @ - 1] /\ Obs(C!Sock(s.nsk), "Sock")
       [] k = "over" -> FALSE   \* the bound of the model
       [] k = "try" -> \/ \E ok \in BOOLEAN, d \in {0, Step} :
                            /\ s' = [Do(<<>>) EXCEPT !.state = "ing", !.chan = i, !.ok = ok, !.at = s.now + d]
                            /\ Obs(C!Try(i, 0, ok, s.now + d, s.now, TRUE), "Try")
                       \/ s' = Do(<<<<"retry", i>>>>) /\ Obs(C!Try(i, 1, FALSE, 0, s.now, TRUE), "Try, failing")
                       \/ s' = Do(<<<<IF Mutant = "fatalretry" THEN "retry" ELSE "cls", i>>>>) /\ Obs(C!Try(i, 2, FALSE, 0, s.now, TRUE), "Try, fatal")
       [] k = "retry" -> /\ s' = [Do(<<>>) EXCEPT !.state = "disc", !.timers = IF s.connect THEN @ \cup {s.now + (IF Mutant = "nocap" THEN s.iv ELSE Min(s.iv, Cap))} ELSE @,
                                     !.timer = IF s.connect THEN s.now + Min(s.iv, Cap) ELSE @,
                                     !.iv = IF ~s.connect THEN @ ELSE IF Mutant = "nodouble" THEN @ ELSE IF Mutant = "nocap" THEN 2 * @ ELSE Min(2 * @, Cap)]
                         /\ IF Mutant = "leak" THEN Silent ELSE Obs(C!Close(i, s.now), "Close")
       [] k = "cls" -> s' = Do(<<>>) /\ Obs(C!Close(i, s.now), "Close of the abandoned")
       [] k = "wr" -> /\ Silent
                      /\ s' = [Do(IF ~s.ok THEN <<<<"retry", s.chan>>>> ELSE IF s.connect THEN <<<<"new", s.chan>>>> ELSE <<<<"cls", s.chan>>>>)
                               EXCEPT !.chan = 0, !.state = IF s.ok THEN "on" ELSE @]
       [] k = "new" -> s' = Do(<<<<"user">>>>) /\ Obs(C!New(i, TRUE), "New")
       [] k = "user" -> (s' = Do(<<>>) /\ Silent) \/ User(Tail(s.code))
Urgent == s.code # <<>> \/ s.q # <<>> \/ (s.chan # 0 /\ s.now >= s.at) \/ \E x \in s.timers : x <= s.now
Tick == s.now < MaxNow /\ ~Urgent /\ s' = [s EXCEPT !.now = @ + Step] /\ Silent
Quiet == ~Urgent /\ (\A t \in Foreign : s.pc[t] = "idle") /\ Obs(C!Quiet(s.now), "Quiet") /\ UNCHANGED s
Next == Task \/ Inside \/ Fire \/ Event \/ Run \/ Tick \/ Quiet \/ \E t \in Foreign : Push(t) \/ Ret(t) \/ Mark(t) \/ \E k \in Kinds : Call(t, k)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
OneTimer == Cardinality(s.timers) <= 1
=============================================================================
