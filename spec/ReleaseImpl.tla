----------------------------- MODULE ReleaseImpl -----------------------------
(* The event loop's functor queue and timer queue as kanon implements them,   *)
(* reduced to who holds which callable: the queue, the batch being run, the   *)
(* set of timers, the timers expired in this round.  Release (P28) observes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Tasks, Timers, Reps, Cancels, Mutant
VARIABLES kept, running, done, may, rep, ending, bad, s
C == INSTANCE Release
rv == <<kept, running, done, may, rep, ending>>
vars == <<rv, bad, s>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED rv /\ bad' = name
Silent == UNCHANGED <<rv, bad>>
(* s.q: the queue, s.b: the batch (s.k of it have been run), s.t: timers set, s.x: expired in this round (s.i of them looked at), *)
(* s.ad: timers on their way from other threads, not cancelled yet; s.c: cancelled in this round, s.pc: what the loop does, s.at: the callable inside which it is, s.gone: objects to delete,      *)
(* s.new: callables not given yet, s.cn: cancels left                                                                            *)
Init == /\ kept = {} /\ running = {} /\ done = {} /\ may = {} /\ rep = {} /\ ending = FALSE /\ bad = ""
        /\ s = [q |-> <<>>, b |-> <<>>, k |-> 0, t |-> {}, x |-> <<>>, i |-> 0, c |-> {}, pc |-> "poll", at |-> "", gone |-> <<>>,
                new |-> Tasks \cup Timers, set |-> {}, ad |-> {}, cn |-> Cancels, up |-> TRUE]
E(k, c) == <<k, c>>
\* deletions come first: nothing else happens in between on that thread
Idle == s.gone = <<>>
InLoop == s.at # "" \/ s.pc = "poll"
Delete == /\ s.gone # <<>> /\ s' = [s EXCEPT !.gone = Tail(@)] /\ Obs(C!LetGo(s.gone[1]), "a callable was released too early, or twice")
\* another thread (f) or a callback (~f) gives a callable
GiveTask(c) == /\ Idle /\ c \in s.new \cap Tasks /\ s' = [s EXCEPT !.new = @ \ {c}, !.q = Append(@, E("task", c))]
               /\ Obs(C!Give(c, FALSE), "given twice")
GiveTimer(c, f) ==
  /\ Idle /\ c \in s.new \cap Timers /\ (f \/ s.at # "")
  /\ s' = IF f THEN [s EXCEPT !.new = @ \ {c}, !.set = @ \cup {c}, !.ad = @ \cup {c}, !.q = Append(@, E("add", c))]
          ELSE [s EXCEPT !.new = @ \ {c}, !.set = @ \cup {c}, !.t = @ \cup {c}]
  /\ Obs(C!Give(c, c \in Reps), "given twice")
\* what the cancel of timer c does on the loop's thread
Kill(x, c) ==
  IF c \in x.ad THEN [x EXCEPT !.ad = @ \ {c}]
  ELSE IF c \in x.t THEN [x EXCEPT !.t = @ \ {c}, !.gone = IF Mutant = "keepcancelled" THEN @ ELSE Append(@, c)]
  ELSE IF \E j \in 1..Len(x.x) : x.x[j] = c
       THEN IF Mutant = "delincb" THEN [x EXCEPT !.gone = Append(@, c), !.x = SelectSeq(@, LAMBDA d : d # c), !.i = IF \E j \in 1..x.i : x.x[j] = c THEN @ - 1 ELSE @]
            ELSE [x EXCEPT !.c = @ \cup {c}]
       ELSE x
CancelIn(c) == /\ Idle /\ s.cn > 0 /\ s.at # "" /\ c \in s.set /\ s' = Kill([s EXCEPT !.cn = @ - 1], c)
               /\ Obs(may' = may \cup {c} /\ done' = done \cup {c} /\ UNCHANGED <<kept, running, rep, ending>>, "cancel")
CancelFar(c) == /\ Idle /\ s.cn > 0 /\ c \in s.set /\ s' = [s EXCEPT !.cn = @ - 1, !.q = @ \o <<E("can", c), E("mark", c)>>]
                /\ Obs(C!Cancel(c), "cancel")
\* a round: functors first taken as a batch, run, and dropped together
TakeBatch == /\ Idle /\ s.pc = "poll" /\ s.q # <<>> /\ s' = [s EXCEPT !.pc = "batch", !.b = IF Mutant = "keepbatch" THEN @ \o s.q ELSE s.q, !.k = IF Mutant = "keepbatch" THEN Len(s.b) ELSE 0, !.q = <<>>] /\ Silent
Held(b) == SelectSeq(b, LAMBDA e : e[1] = "task" \/ (e[1] = "add" /\ Mutant # "leakadd"))
Second(b) == [j \in 1..Len(b) |-> b[j][2]]
RunOne ==
  /\ Idle /\ s.pc = "batch" /\ s.at = "" /\ s.k < Len(s.b)
  /\ LET e == s.b[s.k + 1]  n == [s EXCEPT !.k = @ + 1] IN
     CASE e[1] = "task" -> s' = [n EXCEPT !.at = e[2], !.gone = IF Mutant = "early" THEN <<e[2]>> ELSE @] /\ Obs(C!Begin(e[2]), "ran after its release")
       [] e[1] = "add" -> s' = (IF e[2] \in s.ad \/ Mutant = "addall" THEN [n EXCEPT !.ad = @ \ {e[2]}, !.t = @ \cup {e[2]}, !.b[s.k + 1] = E("nil", "")] ELSE n) /\ Silent
       [] e[1] = "can" -> s' = Kill(n, e[2]) /\ Silent
       [] e[1] = "mark" -> s' = n /\ Obs(C!Cancelled(e[2]), "marker")
       [] OTHER -> s' = n /\ Silent
Leave == /\ Idle /\ s.pc = "batch" /\ s.at # "" /\ s' = [s EXCEPT !.at = ""] /\ Obs(C!End(s.at), "a callable was released inside itself")
DropBatch == /\ Idle /\ s.pc = "batch" /\ s.at = "" /\ s.k = Len(s.b)
             /\ s' = [s EXCEPT !.pc = "poll", !.gone = IF Mutant \in {"keepbatch", "early"} THEN @ ELSE Second(Held(s.b)), !.b = IF Mutant = "keepbatch" THEN @ ELSE <<>>, !.k = IF Mutant = "keepbatch" THEN @ ELSE 0]
             /\ Silent
\* timers due: any subset of those set
Orders(S) == {p \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => p[a] # p[b]}
Expire(S) == /\ Idle /\ s.pc = "poll" /\ S # {} /\ \E p \in Orders(S) : s' = [s EXCEPT !.pc = "timers", !.x = p, !.i = 0, !.c = {}, !.t = @ \ S] /\ Silent
Fire == /\ Idle /\ s.pc = "timers" /\ s.at = "" /\ s.i < Len(s.x)
        /\ LET c == s.x[s.i + 1] IN
           IF c \in s.c THEN s' = [s EXCEPT !.i = @ + 1] /\ Silent
           ELSE s' = [s EXCEPT !.i = @ + 1, !.at = c] /\ Obs(C!Begin(c), "fired after its release")
Fired == /\ Idle /\ s.pc = "timers" /\ s.at # "" /\ s' = [s EXCEPT !.at = ""] /\ Obs(C!End(s.at), "a callback was released inside itself")
Reset == /\ Idle /\ s.pc = "timers" /\ s.at = "" /\ s.i >= Len(s.x)
         /\ LET again == SelectSeq(s.x, LAMBDA c : c \in Reps /\ (Mutant = "restartall" \/ c \notin s.c))
                over == SelectSeq(s.x, LAMBDA c : ~(c \in Reps /\ (Mutant = "restartall" \/ c \notin s.c)))
                out == IF Mutant = "keepskipped" THEN SelectSeq(over, LAMBDA c : c \notin s.c) ELSE over IN
            s' = [s EXCEPT !.pc = "poll", !.t = @ \cup {again[j] : j \in 1..Len(again)}, !.x = <<>>, !.i = 0, !.gone = out]
         /\ Silent
Sleep == /\ Idle /\ s.pc = "poll" /\ s.q = <<>> /\ UNCHANGED s /\ Obs(C!Sleeps, "asleep with something to release")
\* the loop goes: what is queued and set goes with it
Seq2(S) == CHOOSE p \in Orders(S) : TRUE
Queued == {s.q[j][2] : j \in {k \in 1..Len(s.q) : s.q[k][1] = "task" \/ (s.q[k][1] = "add" /\ Mutant # "leakadd")}}
Destroy == /\ Idle /\ s.pc = "poll" /\ s.up /\ s' = [s EXCEPT !.pc = "gone", !.gone = Seq2(Queued) \o Seq2(IF Mutant = "leakset" THEN {} ELSE s.t), !.up = FALSE, !.new = {}, !.cn = 0]
           /\ Obs(C!Destroy, "")
Gone == /\ Idle /\ s.pc = "gone" /\ UNCHANGED s /\ Obs(C!Over, "something outlived the loop")
Next == /\ bad = ""
        /\ \/ Delete \/ TakeBatch \/ RunOne \/ Leave \/ DropBatch \/ Fire \/ Fired \/ Reset \/ Sleep \/ Destroy \/ Gone
           \/ \E c \in Tasks : GiveTask(c)
           \/ \E c \in Timers : GiveTimer(c, TRUE) \/ GiveTimer(c, FALSE) \/ CancelIn(c) \/ CancelFar(c)
           \/ \E S \in SUBSET s.t : Expire(S)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
\* nothing is held in two places
Alone == /\ Cardinality(s.t \cap {s.x[j] : j \in 1..Len(s.x)}) = 0
=============================================================================
