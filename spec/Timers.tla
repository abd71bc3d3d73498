------------------------------- MODULE Timers -------------------------------
(* The timer queue of an event loop as kanon implements it: a set ordered   *)
(* by (deadline, sequence), one timer descriptor armed for the earliest,    *)
(* an expiry round that first collects what is due, runs it and then        *)
(* restarts the repeating timers; additions and cancels of other threads    *)
(* travel through the task queue.  LoopTimers (P09, P10) observes.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Foreign, Ops, BodyOps, InitOps,
  Dels,      \* delays from now (may be negative)
  Ivs,       \* repeat intervals, 0: one shot
  MaxNow,    \* the clock stops here
  MinIv,     \* the descriptor is armed at least this far ahead
  Slack, Tol, Mutant
VARIABLES s, hist, tm, fired, rt, busy, lag, st, bad
C == INSTANCE LoopTimers
mv == <<tm, fired, rt, busy, lag, st>>
vars == <<s, hist, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
NoLog == UNCHANGED hist
Log(x) == hist' = Append(hist, x)
Max(a, b) == IF a > b THEN a ELSE b

(* rec: what the timer objects hold; addr: where they live *)
Init ==
  /\ s = [now |-> 0, pc |-> "new", timers |-> {}, active |-> {}, canc |-> {}, adding |-> {}, calling |-> FALSE,
          rec |-> <<>>, armed |-> -1, ev |-> FALSE, tasks |-> <<>>, batch |-> <<>>, ready |-> {}, exp |-> <<>>, run |-> <<>>, at |-> 0,
          lp |-> <<<<"ops", 0>>>>, th |-> [t \in Foreign |-> <<"idle">>], left |-> [t \in Foreign |-> Ops], ileft |-> InitOps, bleft |-> BodyOps,
          nid |-> 1, known |-> {}]
  /\ hist = <<>> /\ bad = "" /\ C!MInit

Alive == s.active \cup s.adding
FreeAddr == CHOOSE a \in 1..10 : (\A i \in Alive : s.rec[i].addr # a) /\ \A b \in 1..(a - 1) : \E i \in Alive : s.rec[i].addr = b
NewRec(e, iv) == Append(s.rec, [exp |-> e, iv |-> iv, addr |-> FreeAddr])
Before(a, b, rec) == rec[a].exp < rec[b].exp \/ (rec[a].exp = rec[b].exp /\ a < b)
Earliest(S, rec) == CHOOSE i \in S : \A j \in S \ {i} : Before(i, j, rec)
RECURSIVE Sorted(_, _)
Sorted(S, rec) == IF S = {} THEN <<>> ELSE LET e == Earliest(S, rec) IN <<e>> \o Sorted(S \ {e}, rec)
ArmAt(e) == s.now + Max(MinIv, e - s.now)
(* put timer i into the set; arm the descriptor if it is the earliest *)
Emplaced(r, i) ==
  LET early == r.timers = {} \/ (Mutant # "armonlyempty" /\ \A j \in r.timers : r.rec[i].exp < r.rec[j].exp) IN
  [r EXCEPT !.timers = @ \cup {i}, !.active = @ \cup {i},
            !.armed = IF early THEN ArmAt(r.rec[i].exp) ELSE @]
(* cancel on the loop thread *)
Target(i) == IF Mutant = "byaddr" /\ (\E j \in s.active : s.rec[j].addr = s.rec[i].addr)
             THEN CHOOSE j \in s.active : s.rec[j].addr = s.rec[i].addr ELSE i
CancelIn(r, i0) ==
  LET i == Target(i0) IN
  IF i \in r.adding THEN (IF Mutant = "ignoreadding" THEN r ELSE [r EXCEPT !.adding = @ \ {i}])
  ELSE IF i \notin r.active THEN r
  ELSE IF i \in r.timers THEN [r EXCEPT !.timers = @ \ {i}, !.active = @ \ {i}]
  ELSE IF r.calling THEN [r EXCEPT !.canc = @ \cup {i}] ELSE r
Resting == s.pc = "poll" /\ s.lp = <<>> /\ ~s.ev /\ ~(s.armed # -1 /\ s.armed <= s.now)
----------------------------------------------------------------------------
FSet(t) ==
  /\ s.th[t] = <<"idle">> /\ s.left[t] > 0 /\ s.now < MaxNow
  /\ \E d \in Dels, iv \in Ivs :
     LET i == s.nid e == s.now + d IN
     /\ s' = [s EXCEPT !.nid = @ + 1, !.left[t] = @ - 1, !.rec = NewRec(e, iv), !.adding = @ \cup {i}, !.th[t] = <<"add", i>>]
     /\ Log(<<t, "tset", i, d, iv, s.now, Resting>>)
     /\ Obs(C!SetCall(i, e, TRUE, iv), "SetCall")
FCan(t) ==
  /\ s.th[t] = <<"idle">> /\ s.left[t] > 0
  /\ \E i \in s.known :
     /\ s' = [s EXCEPT !.left[t] = @ - 1, !.th[t] = <<"can", i>>]
     /\ Log(<<t, "tcan", i, 0, 0, s.now, Resting>>) /\ Silent
FDo(t) ==
  /\ NoLog
  /\ \/ /\ s.th[t][1] \in {"add", "can"}
        /\ s' = [s EXCEPT !.tasks = Append(@, s.th[t]), !.ev = TRUE, !.th[t] = <<IF @[1] = "add" THEN "ret" ELSE "idle">> \o (IF @[1] = "add" THEN <<@[2]>> ELSE <<>>)]
        /\ Silent
     \/ /\ s.th[t][1] = "ret"
        /\ s' = [s EXCEPT !.known = @ \cup {s.th[t][2]}, !.th[t] = <<"idle">>]
        /\ Obs(C!SetRet(s.th[t][2], s.rec[s.th[t][2]].exp), "SetRet")
----------------------------------------------------------------------------
(* user code on the loop thread: <<"ops", timer or 0>>, <<"sret", id>> *)
Free == s.lp = <<>>
Top == Head(s.lp)
UserOp ==
  /\ ~Free /\ Top[1] = "ops"
  /\ IF Top[2] = 0 THEN s.ileft > 0 ELSE s.bleft > 0
  /\ LET b == IF Top[2] = 0 THEN [s EXCEPT !.ileft = @ - 1] ELSE [s EXCEPT !.bleft = @ - 1] IN
     \/ \E d \in Dels, iv \in Ivs :
        LET i == s.nid e == s.now + d
            r == [b EXCEPT !.nid = @ + 1, !.rec = NewRec(e, iv), !.lp = <<<<"sret", i>>>> \o @] IN
        /\ s' = Emplaced(r, i) /\ Log(<<-Top[2], "tset", i, d, iv, s.now, FALSE>>)
        /\ Obs(C!SetCall(i, e, TRUE, iv), "SetCall on loop")
     \/ \E i \in s.known : s' = CancelIn(b, i) /\ Log(<<-Top[2], "tcan", i, 0, 0, s.now, FALSE>>) /\ Obs(C!Cancelled(i), "cancel on loop")
UserStep ==
  /\ ~Free /\ NoLog
  /\ IF Top[1] = "ops" THEN s' = [s EXCEPT !.lp = Tail(@)] /\ Silent
     ELSE s' = [s EXCEPT !.lp = Tail(@), !.known = @ \cup {Top[2]}] /\ Obs(C!SetRet(Top[2], s.rec[Top[2]].exp), "SetRet on loop")
Start == Free /\ s.pc = "new" /\ s' = [s EXCEPT !.pc = "head"] /\ Obs(C!Start, "Start") /\ NoLog
Head_ == Free /\ s.pc = "head" /\ s' = [s EXCEPT !.pc = "poll"] /\ Obs(C!PollBegin(s.now), "PollB") /\ NoLog
Due == s.armed # -1 /\ s.armed <= s.now
Poll == /\ Free /\ s.pc = "poll" /\ (s.ev \/ Due) /\ NoLog
        /\ s' = [s EXCEPT !.pc = "disp", !.ready = (IF s.ev THEN {"ev"} ELSE {}) \cup (IF Due THEN {"tm"} ELSE {})]
        /\ Obs(C!PollRet(s.now), "PollR")
Disp == /\ Free /\ s.pc = "disp" /\ NoLog /\ Silent
        /\ IF s.ready = {} THEN s' = [s EXCEPT !.pc = "tasks", !.batch = s.tasks, !.tasks = <<>>]
           ELSE \E r \in s.ready :
             IF r = "ev" THEN s' = [s EXCEPT !.ready = @ \ {r}, !.ev = FALSE]
             ELSE LET x == {i \in s.timers : s.rec[i].exp <= (IF Mutant = "early" THEN s.now + 1 ELSE s.now)}
                      l == IF Mutant = "unsorted" THEN (CHOOSE f \in [1..Cardinality(x) -> x] : \A a, b \in 1..Cardinality(x) : a < b => f[a] < f[b]) ELSE Sorted(x, s.rec) IN
                  s' = [s EXCEPT !.ready = @ \ {r}, !.armed = IF @ <= s.now THEN -1 ELSE @, !.timers = @ \ x, !.exp = l, !.run = l, !.canc = {}, !.calling = TRUE,
                                 !.at = s.now, !.pc = "fire"]
Fire == /\ Free /\ s.pc = "fire" /\ s.run # <<>> /\ NoLog
        /\ LET i == Head(s.run) IN
           IF i \in s.canc /\ Mutant # "firecancelled" THEN s' = [s EXCEPT !.run = Tail(@)] /\ Silent
           ELSE s' = [s EXCEPT !.run = Tail(@), !.lp = <<<<"ops", i>>>>] /\ Obs(C!Fire(i, s.now, TRUE), "Fire")
Again(i) == s.rec[i].iv > 0 /\ (i \notin s.canc \/ Mutant = "restartcancelled")
Reset == /\ Free /\ s.pc = "fire" /\ s.run = <<>> /\ NoLog /\ Silent
         /\ LET x == {s.exp[k] : k \in 1..Len(s.exp)}
                again == {i \in x : Again(i)}
                rec2 == [i \in DOMAIN s.rec |-> IF i \in again THEN [s.rec[i] EXCEPT !.exp = (IF Mutant = "restartold" THEN s.rec[i].exp ELSE s.at) + s.rec[i].iv] ELSE s.rec[i]]
                set2 == s.timers \cup again IN
            s' = [s EXCEPT !.calling = FALSE, !.exp = <<>>, !.rec = rec2, !.timers = set2, !.active = (@ \ x) \cup again,
                           !.armed = IF set2 = {} \/ (Mutant = "norearm" /\ x = {}) THEN @ ELSE ArmAt(rec2[Earliest(set2, rec2)].exp),
                           !.pc = "disp"]
Tasks == /\ Free /\ s.pc = "tasks" /\ NoLog
         /\ IF s.batch = <<>> THEN s' = [s EXCEPT !.pc = "head"] /\ Silent
            ELSE LET x == Head(s.batch) r == [s EXCEPT !.batch = Tail(@)] IN
                 IF x[1] = "add"
                 THEN /\ s' = (IF x[2] \in s.adding \/ Mutant = "ignoreadding" THEN Emplaced([r EXCEPT !.adding = @ \ {x[2]}], x[2]) ELSE r) /\ Silent
                 ELSE s' = CancelIn(r, x[2]) /\ Obs(C!Cancelled(x[2]), "Cancelled")
Tick == s.now < MaxNow /\ s' = [s EXCEPT !.now = @ + 1] /\ Log(<<-1000, "adv", 0, 0, 0, s.now, Resting>>) /\ Silent
Idle == \A t \in Foreign : s.th[t] = <<"idle">>
Quiet == Resting /\ Obs(C!Quiet(s.now), "Quiet") /\ UNCHANGED <<s, hist>>
LoopStep == UserOp \/ UserStep \/ Start \/ Head_ \/ Poll \/ Disp \/ Fire \/ Reset \/ Tasks
Next == LoopStep \/ Tick \/ Quiet \/ \E t \in Foreign : FSet(t) \/ FCan(t) \/ FDo(t)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
(* the implementation's own invariants *)
ActiveAgrees == ~s.calling => s.timers = s.active
Armed == (s.pc \in {"poll", "head", "tasks", "new"} /\ s.timers # {}) => s.armed # -1
NotLate == (s.pc \in {"poll", "head", "tasks", "new"} /\ s.timers # {}) =>
             s.armed <= Max(s.now + MinIv, s.rec[Earliest(s.timers, s.rec)].exp)
View == <<s, mv, bad>>
=============================================================================
