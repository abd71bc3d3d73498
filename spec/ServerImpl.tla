----------------------------- MODULE ServerImpl -----------------------------
(* The server as kanon implements it: the acceptor on the base loop (with its *)
(* spare descriptor), the rotation over the loops, the map of connections     *)
(* under its lock, establishment and two-step teardown as tasks on the loops, *)
(* and destruction: the map taken out, every connection destroyed on its loop, *)
(* the loops quit and joined.  Server (P11) observes.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NL, Clients, Errs, Closes, Ends, Holds, Dels, Mutant
VARIABLES s, nl, pend, cs, kept, spare, cause, held, phase, bad
C == INSTANCE Server
mv == <<nl, pend, cs, kept, spare, cause, held, phase>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
L == 0..NL
IO == IF NL = 0 THEN {0} ELSE 1..NL
CC == 1..Clients
(* code: what a loop is about to do; q, batch: its tasks; st: the connections' *)
(* states; eof: ended by their peers; fds: clients whose socket is open        *)
Init == /\ s = [code |-> [l \in L |-> <<>>], q |-> [l \in L |-> <<>>], batch |-> [l \in L |-> <<>>], pc |-> [l \in L |-> "wait"], quit |-> [l \in L |-> FALSE],
                map |-> {}, st |-> [c \in CC |-> "none"], lp |-> [c \in CC |-> 0], watch |-> {}, eof |-> {}, next |-> 0, open |-> {}, freed |-> FALSE, full |-> FALSE,
                n |-> 0, errs |-> Errs, closes |-> Closes, ends |-> Ends, holds |-> Holds, dels |-> Dels]
        /\ bad = "" /\ C!SInit(NL)
(* the world *)
Arrive == s.n < Clients /\ ~s.freed /\ s' = [s EXCEPT !.n = @ + 1] /\ Obs(C!Arrive(s.n + 1), "Arrive")
End(c) == s.ends > 0 /\ c \in s.open /\ c \notin s.eof /\ s' = [s EXCEPT !.ends = @ - 1, !.eof = @ \cup {c}] /\ Obs(C!Cause(c), "Cause")
NoRoom == s.errs > 0 /\ ~s.full /\ s' = [s EXCEPT !.full = TRUE, !.errs = @ - 1] /\ Silent
Room == s.full /\ s' = [s EXCEPT !.full = FALSE] /\ Silent
(* another thread closes a connection it found *)
UserClose(c) ==
  /\ s.closes > 0 /\ c \in s.map /\ s.st[c] \in {"on", "ending"}
  /\ s' = [s EXCEPT !.closes = @ - 1, !.st[c] = "ending", !.q[s.lp[c]] = Append(@, <<"hc", c>>)]
  /\ Obs(C!Cause(c), "Cause")
Unhold(c) == c \in held /\ s' = s /\ Obs(C!Unhold(c), "Unhold")
(* the loops *)
Idle(l) == s.pc[l] = "wait" /\ s.code[l] = <<>>
Wake(l) ==
  /\ Idle(l) /\ ~s.quit[l]
  /\ \/ l = 0 /\ pend # <<>> /\ ~s.freed /\ s' = [s EXCEPT !.code[l] = <<<<"acc">>>>, !.pc[l] = "ev"] /\ Silent
     \/ \E c \in s.watch \cap s.eof : s.lp[c] = l /\ s.st[c] # "off" /\ s' = [s EXCEPT !.code[l] = <<<<"hc", c>>>>, !.pc[l] = "ev"] /\ Silent
     \/ s.q[l] # <<>> /\ s' = [s EXCEPT !.pc[l] = "ev"] /\ Silent
Func(l) == /\ s.pc[l] = "ev" /\ s.code[l] = <<>> /\ Silent
           /\ s' = [s EXCEPT !.pc[l] = "func", !.batch[l] = s.q[l], !.q[l] = <<>>]
Task(l) == /\ s.pc[l] \in {"func", "last"} /\ s.code[l] = <<>> /\ Silent
           /\ s' = IF s.batch[l] # <<>> THEN [s EXCEPT !.code[l] = <<Head(s.batch[l])>>, !.batch[l] = Tail(@)]
                   ELSE [s EXCEPT !.pc[l] = IF @ = "last" THEN "end" ELSE "wait", !.q[l] = IF s.pc[l] = "last" THEN <<>> ELSE @]
Last(l) == /\ Idle(l) /\ s.quit[l] /\ Silent
           /\ s' = [s EXCEPT !.pc[l] = "last", !.batch[l] = IF Mutant = "dropqueue" THEN <<>> ELSE s.q[l], !.q[l] = <<>>]
Del == s.dels > 0 /\ Idle(0) /\ s' = [s EXCEPT !.dels = @ - 1, !.pc[0] = "ev", !.code[0] = <<<<"swap">>>>] /\ Obs(C!DelCall, "DelCall")
(* one step of what loop l does *)
Set(l, more) == [s EXCEPT !.code[l] = more \o Tail(@)]
Emit(l, u, A, name) == s' = u /\ Obs(A, name)
Seq2(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
RunIn(l, m, x, rest) == IF l = m THEN Set(l, <<x>> \o rest) ELSE [Set(l, rest) EXCEPT !.q[m] = Append(@, x)]
Run(l) ==
  /\ s.code[l] # <<>>
  /\ LET k == Head(s.code[l])[1]
         c == IF Len(Head(s.code[l])) > 1 THEN Head(s.code[l])[2] ELSE 0 IN
     CASE k = "acc" -> IF pend = <<>> THEN s' = Set(l, <<>>) /\ Silent
          ELSE IF s.full THEN s' = [Set(l, <<<<"spare">>>>) EXCEPT !.full = FALSE] /\ Obs(C!AcceptErr(24), "AcceptErr")
          ELSE \/ s' = [Set(l, <<<<"reg", Head(pend)>>>>) EXCEPT !.open = @ \cup {Head(pend)}, !.st[Head(pend)] = "new",
                          !.lp[Head(pend)] = IF NL = 0 THEN 0 ELSE s.next + 1,
                          !.next = IF NL = 0 THEN 0 ELSE IF Mutant = "stay" /\ Head(pend) = 2 THEN @ ELSE (@ + 1) % NL]
                  /\ Obs(C!Accept(Head(pend)), "Accept")
               \/ s.errs > 0 /\ s' = [Set(l, <<>>) EXCEPT !.errs = @ - 1] /\ Obs(C!AcceptErr(103), "AcceptErr")
               \/ s.errs > 0 /\ s' = [Set(l, <<>>) EXCEPT !.errs = @ - 1] /\ Obs(C!AcceptErr(4), "AcceptErr")
       [] k = "spare" -> IF pend = <<>> THEN s' = Set(l, <<>>) /\ Silent
          ELSE s' = [Set(l, IF Mutant = "keepspare" THEN <<>> ELSE <<<<"turn", Head(pend)>>>>) EXCEPT !.open = @ \cup {Head(pend)}] /\ Obs(\E x \in {1} : C!Accept(Head(pend)) /\ cs'[Head(pend)].st = "drop", "Accept and drop")
       [] k = "turn" -> s' = [Set(l, <<>>) EXCEPT !.open = @ \ {c}] /\ Obs(C!Close(c), "Close of the dropped")
       [] k = "reg" -> s' = [Set(l, <<<<"disp", c>>>>) EXCEPT !.map = @ \cup {c}] /\ Silent
       [] k = "disp" -> s' = RunIn(l, IF Mutant = "estbase" THEN l ELSE s.lp[c], <<"est", c>>, <<>>) /\ Silent
       [] k = "est" -> s' = [Set(l, <<<<"up", c>>>>) EXCEPT !.st[c] = "on", !.watch = @ \cup {c}] /\ Silent
       [] k = "up" -> s' = Set(l, <<<<"cb", c>>>>) /\ Obs(C!Up(c, l, TRUE), "Up")
       [] k = "cb" -> \/ s' = Set(l, <<>>) /\ Silent
                      \/ s.closes > 0 /\ s.st[c] \in {"on", "ending"}
                         /\ s' = [Set(l, <<<<"hc", c>>>>) EXCEPT !.closes = @ - 1, !.st[c] = "ending"] /\ Obs(C!Cause(c), "Cause")
                      \/ s.holds > 0 /\ c \notin held /\ s' = [Set(l, <<>>) EXCEPT !.holds = @ - 1] /\ Obs(C!Hold(c), "Hold")
       [] k = "hc" -> IF s.st[c] = "off" /\ Mutant # "again" THEN s' = Set(l, <<>>) /\ Silent
                      ELSE s' = [Set(l, <<<<"down", c>>, <<"cb", c>>, <<"ccb", c>>>>) EXCEPT !.st[c] = "off", !.watch = @ \ {c}] /\ Silent
       [] k = "down" -> s' = Set(l, <<>>) /\ Obs(C!Down(c, l), "Down")
       [] k = "ccb" -> IF s.freed THEN s' = Set(l, <<>>) /\ UNCHANGED mv /\ bad' = "the server is used after its end"
                       ELSE s' = [Set(l, <<>>) EXCEPT !.map = IF Mutant = "keepmap" THEN @ ELSE @ \ {c}, !.q[l] = IF c \in s.map THEN Append(@, <<"des", c>>) ELSE @] /\ Silent
       [] k = "des" -> IF s.st[c] \in {"on", "ending"} /\ Mutant # "mute" THEN s' = [Set(l, <<<<"down", c>>, <<"cb", c>>>>) EXCEPT !.st[c] = "off", !.watch = @ \ {c}] /\ Silent
                       ELSE s' = [Set(l, <<>>) EXCEPT !.st[c] = "off", !.watch = @ \ {c}] /\ Silent
       \* destruction
       [] k = "swap" -> s' = [Set(l, [i \in 1..Cardinality(s.map) |-> <<"dd", Seq2(s.map)[i]>>] \o (IF Mutant = "noquit" THEN <<>> ELSE <<<<"quit">>>>) \o <<<<"gone">>>>) EXCEPT !.map = {}] /\ Silent
       [] k = "dd" -> s' = RunIn(l, s.lp[c], <<"des", c>>, <<>>) /\ Silent
       [] k = "quit" -> s' = [Set(l, <<<<"join">>>>) EXCEPT !.quit = [m \in L |-> m # 0]] /\ Silent
       [] k = "join" -> (Mutant = "nojoin" \/ \A m \in L \ {0} : s.pc[m] = "end") /\ s' = Set(l, <<>>) /\ Silent
       [] k = "gone" -> s' = [Set(l, <<>>) EXCEPT !.freed = TRUE, !.watch = {c2 \in @ : s.lp[c2] = 0 \/ Mutant \in {"noquit", "nojoin"}}] /\ Obs(C!DelRet, "DelRet")
Used(c) == \/ c \in s.map \cup held
           \/ \E l \in L : \E q \in {s.q[l], s.batch[l], s.code[l]} : \E i \in DOMAIN q : Len(q[i]) > 1 /\ q[i][2] = c
Release(c) == c \in s.open /\ s.st[c] # "none" /\ ~Used(c) /\ s' = [s EXCEPT !.open = @ \ {c}, !.watch = @ \ {c}] /\ Obs(C!Close(c), "Close")
Rest(l) == s.pc[l] = "end" \/ (Idle(l) /\ ~s.quit[l] /\ s.q[l] = <<>> /\ ~\E c \in s.watch \cap s.eof : s.lp[c] = l /\ s.st[c] # "off")
Quiet == /\ \A l \in L : Rest(l)
         /\ s.freed \/ pend = <<>>
         /\ \A c \in s.open : s.st[c] = "none" \/ Used(c)
         /\ Obs(C!Quiet, "Quiet") /\ UNCHANGED s
(* a loop works alone until it meets what others share *)
Next == \/ Arrive \/ NoRoom \/ Room \/ Del \/ Quiet
        \/ \E c \in CC : End(c) \/ UserClose(c) \/ Unhold(c) \/ Release(c)
        \/ \E l \in L : Wake(l) \/ Func(l) \/ Task(l) \/ Last(l) \/ Run(l)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Registered == ~s.freed => \A c \in CC : s.st[c] = "on" => c \in s.map \/ \E i \in DOMAIN s.code[0] : s.code[0][i][1] \in {"dd", "quit", "join", "gone"}
=============================================================================
