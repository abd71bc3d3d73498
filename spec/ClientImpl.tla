----------------------------- MODULE ClientImpl -----------------------------
(* The client as kanon implements it: the connector's attempts, the one       *)
(* connection under a lock, the retry flag set by any thread, the loss of a    *)
(* connection and what follows, half-close, and destruction, which closes the  *)
(* connection unless the user keeps it, or stops the connector.  Client (P13)  *)
(* observes.  Time is left out: a retry timer may fire at any moment.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slack, Foreign, Ops, InOps, Kinds, Tries, Ends, Holds, Mutant
VARIABLES s, rq, retry, stopped, gone, cyc, cs, lost, cause, fin, held, past, getting, bad
C == INSTANCE Client
mv == <<rq, retry, stopped, gone, cyc, cs, lost, cause, fin, held, past, getting>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
(* cli: the user's reference; lock: the loop holds one more; conn: the client's *)
(* connection; st: connections' states; hold: the connection the user keeps     *)
Init == /\ s = [pc |-> [t \in Foreign |-> "idle"], rid |-> [t \in Foreign |-> 0], left |-> [t \in Foreign |-> Ops], in |-> InOps, nid |-> 1, nsk |-> 1, tries |-> Tries,
                ends |-> Ends, holds |-> Holds, q |-> <<>>, code |-> <<>>, state |-> "disc", connect |-> TRUE, timer |-> FALSE, chan |-> 0, ok |-> FALSE,
                cli |-> TRUE, lock |-> FALSE, delid |-> 0, conn |-> 0, st |-> <<>>, eof |-> {}, hold |-> 0, retry |-> FALSE, removed |-> {}, open |-> {}]
        /\ bad = "" /\ C!CInit
St(c) == IF c \in DOMAIN s.st THEN s.st[c] ELSE "none"
(* a request of another thread; the client's user has one reference, given up by del *)
Call(t, k) == /\ s.pc[t] = "idle" /\ s.left[t] > 0 /\ s.cli /\ (\A j \in DOMAIN s.code : s.code[j][1] # "del") /\ (k = "del" => Cardinality({u \in Foreign : s.pc[u] # "idle"}) = 0)
              /\ s' = [s EXCEPT !.left[t] = @ - 1, !.pc[t] = k, !.rid[t] = s.nid, !.nid = @ + 1] /\ Obs(C!Request(s.nid, k, t), "Request")
Goes(t) ==
  LET i == s.rid[t] IN
  CASE s.pc[t] = "connect" -> s' = [s EXCEPT !.pc[t] = "ret", !.q = Append(@, <<"start", i>>)] /\ Silent
    [] s.pc[t] = "stop" -> s' = [s EXCEPT !.pc[t] = "stop2", !.retry = FALSE] /\ Obs(C!Flag(i), "Flag")
    [] s.pc[t] = "stop2" -> s' = [s EXCEPT !.pc[t] = "ret", !.q = Append(@, <<"stop", i>>)] /\ Silent
    [] s.pc[t] = "enr" -> s' = [s EXCEPT !.pc[t] = "ret", !.retry = TRUE] /\ Obs(C!Flag(i), "Flag")
    [] s.pc[t] = "disc" -> s' = [s EXCEPT !.pc[t] = "disc2", !.retry = IF Mutant = "discretry" THEN @ ELSE FALSE] /\ Obs(C!Flag(i), "Flag")
    [] s.pc[t] = "disc2" -> s' = [s EXCEPT !.pc[t] = "ret", !.q = IF s.conn # 0 THEN Append(@, <<"sw", s.conn>>) ELSE @] /\ Silent
    [] s.pc[t] = "del" -> s' = [s EXCEPT !.pc[t] = IF s.lock THEN "ret" ELSE "dtor", !.cli = FALSE, !.delid = i] /\ Silent
    [] s.pc[t] = "dtor" ->
         IF s.conn = 0 \/ Mutant = "delstops" THEN s' = [s EXCEPT !.pc[t] = "ret", !.q = IF Mutant = "delruns" THEN @ ELSE Append(@, <<"stop", i>>)] /\ Silent
         ELSE s' = [s EXCEPT !.pc[t] = "ret", !.conn = 0, !.q = @ \o <<<<"eff", i>>>> \o (IF s.hold = s.conn THEN <<>> ELSE <<<<"hc", s.conn>>>>)] /\ Silent
    [] s.pc[t] = "ret" -> s' = [s EXCEPT !.pc[t] = "mark"] /\ Obs(C!Ret(i), "Ret")
    [] s.pc[t] = "mark" -> s' = [s EXCEPT !.pc[t] = "idle", !.q = Append(@, <<"mark", i>>)] /\ Silent
    [] OTHER -> FALSE
(* the world *)
Peer(c) == s.ends > 0 /\ c \in s.open /\ c \notin s.eof /\ St(c) \in {"on", "half"} /\ s' = [s EXCEPT !.ends = @ - 1, !.eof = @ \cup {c}] /\ Obs(C!Cause({c}), "Cause")
Task == s.code = <<>> /\ s.q # <<>> /\ s' = [s EXCEPT !.code = <<Head(s.q)>>, !.q = Tail(@)] /\ Silent
Fire == s.code = <<>> /\ s.timer /\ s' = [s EXCEPT !.timer = FALSE, !.code = <<<<"start", 0>>>>] /\ Silent
Event == s.code = <<>> /\ s.chan # 0 /\ s' = [s EXCEPT !.code = <<<<"wr">>>>] /\ Silent
Read(c) == s.code = <<>> /\ c \in s.eof /\ St(c) \in {"on", "half"} /\ s' = [s EXCEPT !.code = <<<<"hc", c>>>>] /\ Silent
Unhold == /\ s.code = <<>> /\ s.hold # 0
          /\ s' = [s EXCEPT !.hold = 0, !.code = IF s.hold # s.conn /\ St(s.hold) \in {"on", "half"} THEN <<<<"hc", s.hold>>>> ELSE <<>>] /\ Obs(C!Hold(FALSE), "Unhold")
(* the user on the loop's thread *)
Inner(k, i) == CASE k = "connect" -> <<<<"start", i>>, <<"ret", i>>>> [] k = "stop" -> <<<<"flag", i, FALSE>>, <<"stop", i>>, <<"ret", i>>>>
                 [] k = "enr" -> <<<<"flag", i, TRUE>>, <<"ret", i>>>> [] k = "disc" -> <<<<"flag", i, FALSE>>, <<"sw", s.conn>>, <<"ret", i>>>>
                 [] k = "del" -> <<<<"del", i>>, <<"ret", i>>>>
User(rest) == \E k \in Kinds : /\ s.in > 0 /\ s.cli /\ (k = "del" => \A u \in Foreign : s.pc[u] = "idle")
                               /\ s' = [s EXCEPT !.in = @ - 1, !.nid = @ + 1, !.code = Inner(k, s.nid) \o rest]
                               /\ Obs(C!Request(s.nid, k, 0), "Request in the loop")
Inside == s.code = <<>> /\ User(<<>>)
Do(more) == [s EXCEPT !.code = more \o Tail(@)]
Interrupt(u) == [u EXCEPT !.timer = FALSE, !.state = IF @ = "ing" THEN "disc" ELSE @, !.chan = 0]
Left == IF s.state = "ing" THEN <<<<"cls", s.chan>>>> ELSE <<>>
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Effs == LET P == {j \in DOMAIN rq : j <= s.delid /\ rq[j].t = rq[s.delid].t /\ ~rq[j].done}
            q == CHOOSE f \in [1..Cardinality(P) -> P] : \A a, b \in DOMAIN f : a < b => f[a] < f[b] IN
        [j \in DOMAIN q |-> <<"eff", q[j]>>]
Done(i) == IF i = 0 THEN TRUE ELSE rq[i].done
Run ==
  /\ s.code # <<>>
  /\ LET h == Head(s.code)
         k == h[1]
         i == IF Len(h) > 1 THEN h[2] ELSE 0 IN
     CASE k = "mark" -> s' = Do(<<>>) /\ Obs(C!Marker(i), "Marker")
       [] k = "ret" -> s' = Do(<<>>) /\ Obs(C!Ret(i), "Ret")
       [] k = "flag" -> s' = [Do(<<>>) EXCEPT !.retry = h[3]] /\ Obs(C!Flag(i), "Flag")
       [] k = "start" -> LET goes == s.connect /\ s.state = "disc" IN
            /\ s' = [Do(IF goes THEN <<<<"conn">>>> ELSE <<>>) EXCEPT !.timer = IF s.connect THEN FALSE ELSE @]
            /\ IF Done(i) THEN Silent ELSE Obs(C!Effect(i) /\ cyc' = (IF goes /\ cyc = "none" THEN "must" ELSE cyc), "Effect of connect")
       [] k = "stop" -> s' = [Interrupt(Do(Left)) EXCEPT !.connect = FALSE] /\ (IF Done(i) THEN Silent ELSE Obs(C!Effect(i), "Effect"))
       [] k = "conn" -> IF s.tries = 0 THEN s' = [s EXCEPT !.code = <<<<"over">>>>] /\ Silent
                        ELSE s' = [Do(<<<<"try", s.nsk>>>>) EXCEPT !.nsk = @ + 1, !.tries = @ - 1] /\ Obs(C!Sock(s.nsk), "Sock")
       [] k = "over" -> FALSE
       [] k = "try" -> \/ \E ok \in BOOLEAN : s' = [Do(<<>>) EXCEPT !.state = "ing", !.chan = i, !.ok = ok] /\ Obs(C!Try(i, 0, ok, 0, TRUE), "Try")
                       \/ s' = Do(<<<<"retry", i>>>>) /\ Obs(C!Try(i, 1, FALSE, 0, TRUE), "Try, failing")
                       \/ s' = Do(<<<<"cls", i>>>>) /\ Obs(C!Try(i, 2, FALSE, 0, TRUE), "Try, fatal")
       [] k = "retry" -> s' = [Do(<<>>) EXCEPT !.state = "disc", !.timer = s.connect] /\ Obs(C!Close(i), "Close of a failed one")
       [] k = "cls" -> s' = Do(<<>>) /\ Obs(C!Close(i), "Close of an abandoned one")
       [] k = "wr" -> s' = [Do(IF s.ok THEN <<<<"new", s.chan>>>> ELSE <<<<"retry", s.chan>>>>) EXCEPT !.chan = 0, !.state = IF s.ok THEN "on" ELSE @] /\ Silent
       \* a new connection
       [] k = "new" -> IF ~s.cli THEN s' = Do(<<<<"cls", i>>>>) /\ Silent
                       ELSE s' = [Do(<<<<"up", i>>>>) EXCEPT !.lock = TRUE, !.conn = i, !.st = Upd(@, i, "on"), !.open = @ \cup {i}] /\ Silent
       [] k = "up" -> s' = Do(<<<<"cb", i>>, <<"unlock">>>>) /\ Obs(C!Up(i, TRUE), "Up")
       [] k = "cb" -> \/ s' = Do(<<>>) /\ Silent
                      \/ User(Tail(s.code))
                      \/ s.holds > 0 /\ s.hold = 0 /\ s' = [Do(<<>>) EXCEPT !.holds = @ - 1, !.hold = i] /\ Obs(C!Hold(TRUE), "Hold")
                      \/ s.ends > 0 /\ St(i) \in {"on", "half"} /\ s' = [Do(<<<<"hc", i>>>>) EXCEPT !.ends = @ - 1] /\ Obs(C!Cause(DOMAIN cs), "Cause by the user")
       [] k = "unlock" -> s' = [s EXCEPT !.lock = FALSE, !.code = (IF s.cli THEN <<>> ELSE <<<<"dtor">>>>) \o Tail(@)] /\ Silent
       \* half-close: the state now, the rest behind what was queued
       [] k = "sw" -> s' = [Do(<<>>) EXCEPT !.st = IF St(i) = "on" THEN Upd(@, i, "half") ELSE @, !.q = IF St(i) = "on" THEN Append(@, <<"fin", i>>) ELSE @] /\ Silent
       [] k = "fin" -> IF St(i) = "off" \/ Mutant = "nofin" THEN s' = Do(<<>>) /\ Silent ELSE s' = Do(<<>>) /\ Obs(C!Fin(i), "Fin")
       \* the end of a connection
       [] k = "hc" -> IF St(i) = "off" THEN s' = Do(<<>>) /\ Silent
                      ELSE s' = [Do(<<<<"down", i>>, <<"cb", i>>, <<"downend", i>>, <<"closed", i>>>>) EXCEPT !.st[i] = "off"] /\ Silent
       [] k = "down" -> s' = Do(<<>>) /\ Obs(C!Down(i, TRUE), "Down")
       [] k = "downend" -> s' = Do(<<>>) /\ Obs(C!DownEnd(i), "DownEnd")
       [] k = "closed" -> s' = [Do(IF s.cli THEN <<<<"lost", i>>>> ELSE <<<<"lostdead">>>>) EXCEPT !.q = Append(@, <<"des", i>>), !.lock = s.cli] /\ Silent
       [] k = "lost" -> s' = [Do(IF (s.retry \/ Mutant = "always") /\ Mutant # "once" THEN <<<<"rest">>, <<"unlock">>>> ELSE <<<<"unlock">>>>) EXCEPT !.conn = IF Mutant = "keepconn" THEN @ ELSE 0]
                        /\ Obs(C!Decide /\ cyc' = (IF s.retry THEN "must" ELSE IF gone THEN "none" ELSE cyc), "Decide")
       [] k = "lostdead" -> s' = Do(<<>>) /\ Obs(C!Decide /\ cyc' = (IF gone \/ ~retry THEN cyc' ELSE "none"), "Decide without a client")
       [] k = "rest" -> s' = [Interrupt(Do(Left \o <<<<"start", 0>>>>)) EXCEPT !.connect = TRUE, !.state = "disc"] /\ Silent
       [] k = "des" -> s' = [Do(<<>>) EXCEPT !.removed = @ \cup {i}] /\ Silent
       \* destruction, in the loop's thread
       [] k = "del" -> s' = [Do(IF s.lock THEN <<>> ELSE <<<<"dtor">>>>) EXCEPT !.cli = FALSE, !.delid = i] /\ Silent
       [] k = "dtor" -> IF s.conn = 0 THEN s' = Do(Effs \o (IF Mutant = "delruns" THEN <<>> ELSE <<<<"stop", 0>>>>)) /\ Silent
                        ELSE s' = [Do(Effs \o (IF s.hold = s.conn THEN <<>> ELSE <<<<"hc", s.conn>>>>)) EXCEPT !.conn = 0] /\ Silent
       \* (when a request has its effect, where the code has no step for it)
       [] k = "eff" -> s' = Do(<<>>) /\ (IF rq[i].done THEN Silent ELSE Obs(C!Effect(i), "Effect"))
Kept(c) == c = s.hold \/ c = s.conn \/ (\E j \in DOMAIN s.q : s.q[j][1] # "mark" /\ Len(s.q[j]) > 1 /\ s.q[j][1] \in {"sw", "fin", "hc", "des"} /\ s.q[j][2] = c)
           \/ \E j \in DOMAIN s.code : Len(s.code[j]) > 1 /\ s.code[j][1] \in {"sw", "fin", "hc", "down", "cb", "downend", "closed", "lost"} /\ s.code[j][2] = c
Release(c) == c \in s.open /\ c \in s.removed /\ ~Kept(c) /\ s' = [s EXCEPT !.open = @ \ {c}] /\ Obs(C!Close(c), "Close")
Quiet == /\ s.code = <<>> /\ s.q = <<>> /\ s.chan = 0 /\ (\A t \in Foreign : s.pc[t] = "idle")
         /\ \A c \in s.open : ~(c \in s.eof /\ St(c) # "off") /\ ~(c \in s.removed /\ ~Kept(c))
         /\ Obs(C!Quiet(0), "Quiet") /\ UNCHANGED s
Next == \/ Task \/ Fire \/ Event \/ Unhold \/ Inside \/ Run \/ Quiet
        \/ \E c \in 1..Tries : Peer(c) \/ Read(c) \/ Release(c)
        \/ \E t \in Foreign : Goes(t) \/ \E k \in Kinds : Call(t, k)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
OneLive == Cardinality({c \in DOMAIN s.st : s.st[c] # "off"}) <= 1
=============================================================================
