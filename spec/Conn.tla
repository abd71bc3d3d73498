-------------------------------- MODULE Conn --------------------------------
(* A connection as kanon implements it: user threads, the loop's task queue *)
(* (swapped as a batch), the output buffer, write interest, the deferred    *)
(* half close and the two-step teardown.  The four contracts (ConnWire,     *)
(* ConnRead, ConnLife, ConnNotify) ride along as observers: every event the *)
(* implementation produces must be one the contract allows, else bad # "".  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Foreign,   \* user threads (numbers > 0)
  Ops,       \* operations per foreign thread
  LoopOps,   \* operations queued to the loop by its user
  CbOps,     \* sends issued from write-complete callbacks
  Lens,      \* message lengths
  Kinds,     \* operations of foreign threads: subset of {"send", "shut", "close"}
  LoopKinds, \* subset of {"send", "shut", "close", "disr", "enr"}
  Env,       \* subset of {"psend", "pfin", "prst", "grant"}
  EnvOps,    \* how many of them
  Win0,      \* initial send space
  Mark,      \* high-water mark, 0: none
  WC,        \* write-complete callback installed
  Mutant     \* "none", or a deliberate deviation that must be detected

VARIABLES
  s,         \* the implementation
  hist,      \* operations begun, in order (only used to generate scripts)
  \* --- observers
  calls, cur, fin, shut, must, hard,
  arr, hi, reading, peer, rhard, live,
  up, down, cause, lmust, pmust, off, held, closed,
  ncalls, pend, credit, due, mark, wc, soft,
  bad

W == INSTANCE ConnWire
R == INSTANCE ConnRead WITH hard <- rhard
L == INSTANCE ConnLife WITH must <- lmust
N == INSTANCE ConnNotify WITH calls <- ncalls

wv == <<calls, cur, fin, shut, must, hard>>
rv == <<arr, hi, reading, peer, rhard, live>>
lv == <<up, down, cause, lmust, pmust, off, held, closed>>
nv == <<ncalls, pend, credit, due, mark, wc, soft>>
vars == <<s, hist, wv, rv, lv, nv, bad>>
uW == UNCHANGED wv
uR == UNCHANGED rv
uL == UNCHANGED lv
uN == UNCHANGED nv

Init ==
  /\ s = [state |-> "connected", out |-> <<>>, wint |-> FALSE, rint |-> TRUE, shutp |-> FALSE,
          tasks |-> <<>>, batch |-> <<>>, lp |-> <<>>, pc |-> [t \in Foreign |-> [k |-> "idle"]],
          left |-> [t \in Foreign |-> Ops], lleft |-> LoopOps, cleft |-> CbOps, eleft |-> EnvOps,
          win |-> Win0, rq |-> 0, pfin |-> FALSE, prst |-> FALSE, nextm |-> 1, dest |-> FALSE]
  /\ hist = <<>> /\ bad = ""
  /\ W!WInit
  /\ arr = 0 /\ hi = 0 /\ reading = "on" /\ peer = FALSE /\ rhard = FALSE /\ live = TRUE
  /\ up = 1 /\ down = 0 /\ cause = FALSE /\ lmust = FALSE /\ pmust = FALSE /\ off = FALSE /\ held = FALSE /\ closed = 0
  /\ N!NInit(Mark, WC)

(* the contracts' view of a step *)
Obs(A, B, C, D, name) ==
  IF ENABLED A /\ ENABLED B /\ ENABLED C /\ ENABLED D
  THEN A /\ B /\ C /\ D /\ UNCHANGED bad
  ELSE UNCHANGED <<wv, rv, lv, nv>> /\ bad' = name
Silent == Obs(uW, uR, uL, uN, "")

RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE (Head(q).n - Head(q).a) + Total(Tail(q))
Min(a, b) == IF a < b THEN a ELSE b
Log(x) == hist' = Append(hist, x)
NoLog == UNCHANGED hist

CanWrite == s.wint /\ (s.win > 0 \/ s.prst) /\ s.state # "disconnected"
CanRead == s.state # "disconnected" /\ ((s.rint /\ (s.rq > 0 \/ s.pfin)) \/ ((s.rint \/ s.wint) /\ s.prst))
LoopIdle == s.tasks = <<>> /\ s.batch = <<>> /\ s.lp = <<>> /\ ~CanWrite /\ ~CanRead

----------------------------------------------------------------------------
(* user threads *)
FCall(t) ==
  /\ s.pc[t].k = "idle" /\ s.left[t] > 0
  /\ \E k \in Kinds, n \in Lens :
       /\ k # "send" => n = CHOOSE x \in Lens : TRUE
       /\ Log(<<t, k, n, LoopIdle>>)
       /\ s' = [s EXCEPT !.pc[t] = [k |-> k, m |-> s.nextm, n |-> n], !.left[t] = @ - 1,
                         !.nextm = IF k = "send" THEN @ + 1 ELSE @]
       /\ CASE k = "send" -> Obs(W!SendCall(t, s.nextm, n), uR, uL, N!SendCall(t, s.nextm, n), "SendCall")
            [] k = "shut" -> Obs(W!ShutCall, uR, uL, N!Soft, "ShutCall")
            [] k = "close" -> Obs(W!Hard, R!Hard, L!End, N!Soft, "CloseCall")
(* the call's one visible step: look at the state, queue the work *)
FDo(t) ==
  /\ s.pc[t].k \in {"send", "shut", "close"}
  /\ LET p == s.pc[t]
         q == IF s.state = "disconnected" THEN s
              ELSE CASE p.k = "send" -> IF s.state = "connected" THEN [s EXCEPT !.tasks = Append(@, [k |-> "send", m |-> p.m, n |-> p.n])] ELSE s
                     [] p.k = "shut" -> IF s.state = "connected"
                                        THEN [s EXCEPT !.state = "disconnecting", !.tasks = Append(@, [k |-> "shut"])] ELSE s
                     [] p.k = "close" -> [s EXCEPT !.tasks = Append(@, [k |-> "close"])]
     IN s' = [q EXCEPT !.pc[t] = [p EXCEPT !.k = p.k \o "ret"]]
  /\ Silent /\ NoLog
FRet(t) ==
  /\ s.pc[t].k \in {"sendret", "shutret", "closeret"}
  /\ s' = [s EXCEPT !.pc[t] = [k |-> "idle"]]
  /\ CASE s.pc[t].k = "sendret" -> Obs(W!SendRet(t, s.pc[t].m), uR, uL, N!SendRet(t, s.pc[t].m), "SendRet")
       [] s.pc[t].k = "shutret" -> Obs(W!ShutRet, uR, uL, uN, "ShutRet")
       [] OTHER -> Silent
  /\ NoLog

(* work handed to the loop by its user *)
LoopOp == \E k \in LoopKinds, n \in Lens :
  /\ s.lleft > 0
  /\ k # "send" => n = CHOOSE x \in Lens : TRUE
  /\ s' = [s EXCEPT !.lleft = @ - 1, !.tasks = Append(@, [k |-> "u" \o k, n |-> n])]
  /\ Log(<<0, k, n, LoopIdle>>) /\ Silent

----------------------------------------------------------------------------
(* the loop: lp is its program, a stack of micro steps *)
Free == s.lp = <<>>
Swap == /\ Free /\ s.batch = <<>> /\ s.tasks # <<>>
        /\ s' = [s EXCEPT !.batch = s.tasks, !.tasks = <<>>] /\ Silent /\ NoLog
(* a task starts: which micro steps it takes *)
Begin == /\ Free /\ s.batch # <<>>
         /\ s' = [s EXCEPT !.batch = Tail(@), !.lp = <<Head(s.batch)>>] /\ Silent /\ NoLog
Top == Head(s.lp)
Pop == [s EXCEPT !.lp = Tail(@)]
Goto(prog) == [s EXCEPT !.lp = prog \o Tail(@)]

LUser ==  \* a user operation on the loop thread begins
  /\ ~Free
  /\ CASE Top.k = "usend" ->
            /\ s' = [Goto(<<[k |-> "chk", m |-> s.nextm, n |-> Top.n], [k |-> "sret", m |-> s.nextm]>>) EXCEPT !.nextm = @ + 1]
            /\ Obs(W!SendCall(0, s.nextm, Top.n), uR, uL, N!SendCall(0, s.nextm, Top.n), "SendCall on loop")
       [] Top.k = "chk" -> s' = (IF s.state = "connected" \/ Mutant = "sendaftershut" THEN Goto(<<[k |-> "send", m |-> Top.m, n |-> Top.n]>>) ELSE Pop) /\ Silent
       [] Top.k = "sret" -> s' = Pop /\ Obs(W!SendRet(0, Top.m), uR, uL, N!SendRet(0, Top.m), "SendRet on loop")
       [] Top.k = "ushut" ->
            /\ s' = [Goto(<<[k |-> "shutret"]>>) EXCEPT !.state = IF @ = "connected" THEN "disconnecting" ELSE @,
                       !.tasks = IF s.state = "connected" THEN Append(@, [k |-> "shut"]) ELSE @]
            /\ Obs(W!ShutCall, uR, uL, N!Soft, "ShutCall on loop")
       [] Top.k = "shutret" -> s' = Pop /\ Obs(W!ShutRet, uR, uL, uN, "ShutRet on loop")
       [] Top.k = "uclose" ->
            /\ s' = [Pop EXCEPT !.tasks = IF s.state # "disconnected" THEN Append(@, [k |-> "close"]) ELSE @]
            /\ Obs(W!Hard, R!Hard, L!End, N!Soft, "CloseCall on loop")
       [] Top.k = "udisr" -> s' = [Goto(<<[k |-> "disret"]>>) EXCEPT !.rint = FALSE] /\ Obs(uW, R!DisableCall, L!Reading(FALSE), uN, "Disable")
       [] Top.k = "disret" -> s' = Pop /\ Obs(uW, R!DisableRet, uL, uN, "DisableRet")
       [] Top.k = "uenr" -> s' = [Goto(<<[k |-> "enret"]>>) EXCEPT !.rint = (s.state # "disconnected")] /\ Obs(uW, R!EnableCall, L!Reading(TRUE), uN, "Enable")
       [] Top.k = "enret" -> s' = Pop /\ Obs(uW, R!EnableRet, uL, uN, "EnableRet")
       [] OTHER -> FALSE
  /\ NoLog

Owed(p, q) == Mark > 0 /\ (p < Mark \/ Mutant = "hwlevel") /\ q >= Mark
Wcs(b) == IF WC /\ b THEN <<[k |-> "wc"]>> ELSE <<>>
LSend ==  \* the send path on the loop thread
  /\ ~Free /\ Top.k = "send"
  /\ LET m == Top.m  n == Top.n
         refuse == s.state = "disconnected" \/ s.shutp
         pend0 == Total(s.out)
         direct == (~s.wint \/ Mutant = "overtake") /\ (s.out = <<>> \/ Mutant = "overtake")
         k == IF direct THEN Min(n, s.win) ELSE 0
         q == pend0 + n - k
         newout == IF k < n THEN Append(s.out, [m |-> m, a |-> k, n |-> n]) ELSE s.out
     IN IF refuse THEN s' = Pop /\ Silent
        ELSE IF direct /\ s.prst THEN s' = Pop /\ Obs(W!Hard, uR, L!MayEnd, N!Soft, "WErr")
        ELSE /\ s' = [Pop EXCEPT !.out = IF Mutant = "dropagain" /\ direct /\ k = 0 THEN s.out ELSE newout,
                        !.wint = (@ \/ (k < n /\ ~(Mutant = "dropagain" /\ k = 0))), !.win = @ - k,
                        !.tasks = @ \o Wcs(direct /\ k = n) \o (IF k < n /\ Owed(pend0, q) THEN <<[k |-> "hw", n |-> q]>> ELSE <<>>)]
             /\ Obs(IF k > 0 THEN W!Wire(m, 0, k) ELSE uW, uR, uL,
                    IF pend0 > 0 THEN (IF k > 0 THEN FALSE ELSE N!AcceptBehind(m))
                    ELSE IF n = 0 THEN N!AcceptEmpty(m) /\ credit' = N!Credit(0) ELSE N!AcceptDirect(m, k), "accept")
  /\ NoLog

(* dispatch of poll events happens between batches *)
Dispatch ==
  /\ Free /\ s.batch = <<>>
  /\ \/ CanRead /\ s' = [s EXCEPT !.lp = <<[k |-> "read"]>>]
     \/ CanWrite /\ s' = [s EXCEPT !.lp = <<[k |-> "write", n |-> Min(s.win, Total(s.out))]>>]
  /\ Silent /\ NoLog
LRead ==
  /\ ~Free /\ Top.k = "read"
  /\ IF s.prst \/ (s.pfin /\ s.rq = 0)
     THEN s' = Goto(<<[k |-> "hclose"]>>) /\ Silent
     ELSE IF s.rq = 0 THEN s' = Pop /\ Silent
     ELSE LET lost == IF Mutant = "loseread" /\ s.pfin THEN s.rq ELSE 0 IN
          /\ s' = [Goto(IF s.pfin THEN <<[k |-> "hclose"]>> ELSE <<>>) EXCEPT !.rq = 0]
          /\ Obs(uW, IF lost = 0 THEN R!Deliver(hi, hi + s.rq, TRUE, TRUE) ELSE uR, L!Msg(TRUE), uN, "Deliver")
  /\ NoLog
LWrite ==  \* a piece of the pending output per step
  /\ ~Free /\ Top.k = "write"
  /\ IF s.prst THEN s' = Pop /\ Obs(W!Hard, uR, L!MayEnd, N!Soft, "WErr")
     ELSE IF Top.n = 0 THEN s' = Pop /\ Silent
     ELSE LET h == Head(s.out)  k == Min(Top.n, h.n - h.a)
              rest == IF h.a + k = h.n THEN Tail(s.out) ELSE <<[h EXCEPT !.a = @ + k]>> \o Tail(s.out)
          IN /\ s' = [Goto((IF Top.n > k THEN <<[k |-> "write", n |-> Top.n - k]>> ELSE <<>>)
                        \o (IF rest = <<>> /\ s.shutp THEN <<[k |-> "fin"]>> ELSE <<>>))
                      EXCEPT !.out = rest, !.win = @ - k, !.wint = rest # <<>>, !.tasks = @ \o Wcs(rest = <<>>)]
             /\ Obs(W!Wire(h.m, h.a, h.a + k), uR, uL, N!Drain(k), "drain")
  /\ NoLog
LShut ==  \* the queued half close
  /\ ~Free /\ Top.k = "shut"
  /\ IF s.state = "disconnected" THEN s' = Pop /\ Silent
     ELSE IF s.out = <<>> \/ Mutant = "eagerfin" THEN s' = [Goto(<<[k |-> "fin"]>>) EXCEPT !.shutp = TRUE] /\ Silent
     ELSE s' = [Pop EXCEPT !.shutp = TRUE] /\ Silent
  /\ NoLog
LFin == ~Free /\ Top.k = "fin" /\ s' = Pop /\ Obs(W!Fin(1), uR, uL, uN, "Fin") /\ NoLog
LClose ==
  /\ ~Free
  /\ CASE Top.k = "close" -> IF s.state # "disconnected" \/ Mutant = "doubleclose" THEN s' = Goto(<<[k |-> "hclose"]>>) /\ Silent ELSE s' = Pop /\ Silent
       [] Top.k = "hclose" ->
            IF s.state = "disconnected" /\ Mutant # "doubleclose" THEN s' = Pop /\ Silent
            ELSE /\ s' = [Goto(<<[k |-> "hclose2"]>>) EXCEPT !.state = "disconnected", !.rint = FALSE, !.wint = FALSE]
                 /\ Obs(W!Hard, R!Down, L!Down(TRUE, TRUE), N!Soft, "Down")
       [] Top.k = "hclose2" -> s' = [Pop EXCEPT !.tasks = Append(@, [k |-> "destroy"])] /\ Silent
       [] Top.k = "destroy" -> s' = [Pop EXCEPT !.dest = TRUE] /\ Obs(uW, uR, L!Close, uN, "FdClose")
       [] OTHER -> FALSE
  /\ NoLog
LWc ==  \* the write-complete callback, which may itself send
  /\ ~Free /\ Top.k = "wc"
  /\ \/ s' = Pop
     \/ s.cleft > 0 /\ \E n \in Lens : s' = [Goto(<<[k |-> "usend", n |-> n]>>) EXCEPT !.cleft = @ - 1]
  /\ Obs(uW, uR, uL, N!WriteComplete(TRUE), "write complete") /\ NoLog
LHw == ~Free /\ Top.k = "hw" /\ s' = Pop /\ Obs(uW, uR, uL, N!HighWater(Top.n, TRUE), "high water") /\ NoLog

(* the other side and the kernel *)
Outside == /\ s.eleft > 0 /\ s.state # "disconnected"
  /\ \E e \in Env :
     /\ Log(<<-1, e, 1, LoopIdle>>)
     /\ CASE e = "psend" -> ~s.pfin /\ ~s.prst /\ s' = [s EXCEPT !.rq = @ + 1, !.eleft = @ - 1] /\ Obs(uW, R!Arrive(1), uL, uN, "arrive")
          [] e = "pfin" -> ~s.pfin /\ ~s.prst /\ s' = [s EXCEPT !.pfin = TRUE, !.eleft = @ - 1] /\ Obs(W!Hard, R!PeerEnd, L!PeerEnd, N!Soft, "pfin")
          [] e = "prst" -> ~s.prst /\ s' = [s EXCEPT !.prst = TRUE, !.eleft = @ - 1, !.rq = 0] /\ Obs(W!Hard, R!Hard, L!PeerEnd, N!Soft, "prst")
          [] e = "grant" -> s' = [s EXCEPT !.win = @ + 1, !.eleft = @ - 1] /\ Silent

(* nothing left to happen, the kernel has taken everything *)
Over == /\ LoopIdle /\ s.eleft = 0 /\ s.lleft = 0
        /\ \A t \in Foreign : s.pc[t].k = "idle" /\ s.left[t] = 0
Open == /\ Over /\ s.win < 100 /\ s.out # <<>>
        /\ s' = [s EXCEPT !.win = 1000] /\ Silent /\ NoLog
Quiet == /\ Over /\ (s.win >= 100 \/ s.out = <<>>)
         /\ Obs(W!Quiet, R!Quiet, L!Quiet, N!Quiet, "Quiet") /\ UNCHANGED <<s, hist>>

LoopStep == Swap \/ Begin \/ LUser \/ LSend \/ Dispatch \/ LRead \/ LWrite \/ LShut \/ LFin \/ LClose \/ LWc \/ LHw
Next == \/ LoopStep \/ LoopOp \/ Outside \/ Open \/ Quiet
        \/ \E t \in Foreign : FCall(t) \/ FDo(t) \/ FRet(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(LoopStep) /\ WF_vars(Open)
            /\ \A t \in Foreign : WF_vars(FCall(t) \/ FDo(t) \/ FRet(t))

Conforms == bad = ""
ContractInv == /\ W!TypeOK /\ W!NoInterleave /\ W!ThreadOrder /\ W!FlushBeforeFin
               /\ R!DeliveredArrived /\ L!UpDown /\ L!CloseLast /\ N!DueReachMark /\ N!CreditOK
(* the implementation's own invariants *)
PendingMeansInterest == s.state # "disconnected" /\ s.lp = <<>> => (s.wint <=> s.out # <<>>)
PendingAgrees == s.state # "disconnected" /\ ~hard => Total(s.out) = pend
(* liveness: what is accepted is flushed, a half close ends the stream, a close closes *)
Flushed == \A m \in 1..3 : (Len(calls) >= m /\ calls[m].ret /\ ~calls[m].refu) ~> (hard \/ calls[m].sent = calls[m].n \/ calls[m].dead)
ShutFins == (shut = 2) ~> (fin = 1 \/ hard)
CloseCloses == lmust ~> (closed = 1)
View == <<s, wv, rv, lv, nv, bad>>
=============================================================================
