------------------------------ MODULE Client ------------------------------
(* Contract of a client (property P13): at most one live connection, each   *)
(* announced up once and down once on the loop; a new attempt after a loss  *)
(* exactly when retry is on; stop, disconnect and destruction end that.     *)
(* A request of another thread acts in two steps: the retry flag inside the *)
(* call, the rest before the marker queued behind it has run.               *)
EXTENDS Integers, FiniteSets
CONSTANT Slack
VARIABLES
  rq,      \* request -> [k, t, flag, done, ret]
  retry, stopped, gone,
  cyc,     \* attempts: "none", "must" (one is due), "on" (in progress)
  cs,      \* connection -> [st: "sock","try","up","ending","down","closed", ok, at]
  lost,    \* a connection was lost and what follows is not decided yet
  cause,   \* connections that have a reason to end
  fin,     \* connection -> "asked" (half-close requested), "done"
  held,    \* the user keeps the connection
  past,    \* there was a connection
  getting  \* thread -> the live connection when it asked, if settled
cvars == <<rq, retry, stopped, gone, cyc, cs, lost, cause, fin, held, past, getting>>
CInit == /\ rq = <<>> /\ retry = FALSE /\ stopped = FALSE /\ gone = FALSE /\ cyc = "none" /\ cs = <<>> /\ lost = FALSE
         /\ cause = {} /\ fin = <<>> /\ held = FALSE /\ past = FALSE /\ getting = <<>>
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Live == {c \in DOMAIN cs : cs[c].st = "up"}

Request(i, k, t) ==
  /\ i \notin DOMAIN rq
  /\ rq' = Upd(rq, i, [k |-> k, t |-> t, flag |-> k \in {"connect", "del"}, done |-> k \in {"disc", "enr"}, ret |-> FALSE, up |-> Live])
  /\ cause' = (IF k = "del" THEN cause \cup DOMAIN cs ELSE cause)
  /\ UNCHANGED <<retry, stopped, gone, cyc, cs, lost, fin, held, past, getting>>
Due(i) == i \in DOMAIN rq /\ rq[i].t = 0 /\ ~(rq[i].flag /\ rq[i].done)
Flag(i) == /\ ~rq[i].flag /\ rq' = [rq EXCEPT ![i].flag = TRUE]
           /\ retry' = (rq[i].k = "enr")
           /\ UNCHANGED <<stopped, gone, cyc, cs, lost, cause, fin, held, past, getting>>
Abandon == [c \in DOMAIN cs |-> IF cs[c].st = "try" THEN [cs[c] EXCEPT !.st = "leave"] ELSE cs[c]]
Effect(i) ==
  /\ rq[i].flag /\ ~rq[i].done
  /\ \A j \in DOMAIN rq : j < i /\ rq[j].t = rq[i].t => rq[j].done
  /\ rq' = [rq EXCEPT ![i].done = TRUE]
  /\ \/ /\ rq[i].k = "connect"
        /\ cyc' \in (IF stopped \/ gone \/ cyc # "none" \/ Live # {} THEN {cyc} ELSE IF past THEN {"none", "must"} ELSE {"must"})
        /\ UNCHANGED <<stopped, gone, cs>>
     \/ /\ rq[i].k = "stop" /\ stopped' = TRUE /\ cyc' = "none" /\ cs' = Abandon /\ UNCHANGED gone
     \/ /\ rq[i].k = "del" /\ gone' = TRUE /\ cyc' = "none" /\ cs' = Abandon /\ UNCHANGED stopped
  /\ UNCHANGED <<retry, lost, cause, fin, held, past, getting>>
Ret(i) ==
  /\ i \in DOMAIN rq /\ rq[i].flag /\ (rq[i].t = 0 => rq[i].done \/ rq[i].k = "del")
  /\ rq' = [rq EXCEPT ![i].ret = TRUE]
  \* a half-close asked for while the connection was up
  /\ fin' = (IF rq[i].k = "disc" THEN [c \in DOMAIN fin \cup (rq[i].up \cap Live) |-> IF c \in DOMAIN fin THEN fin[c] ELSE "asked"] ELSE fin)
  /\ UNCHANGED <<retry, stopped, gone, cyc, cs, lost, cause, held, past, getting>>
Marker(i) == i \in DOMAIN rq /\ rq[i].done /\ UNCHANGED cvars
(* what follows a lost connection *)
Decide ==
  /\ lost /\ lost' = FALSE
  /\ cyc' \in (IF gone THEN {"none"} ELSE IF retry THEN {"must"} \cup (IF \E i \in DOMAIN rq : rq[i].k = "del" THEN {"none"} ELSE {}) ELSE {cyc})
  /\ stopped' = (IF cyc' = "must" /\ retry THEN FALSE ELSE stopped)
  /\ UNCHANGED <<rq, retry, gone, cs, cause, fin, held, past, getting>>
Sock(c) == /\ c \notin DOMAIN cs /\ cs' = Upd(cs, c, [st |-> "sock", ok |-> FALSE, at |-> 0])
           /\ UNCHANGED <<rq, retry, stopped, gone, cyc, lost, cause, fin, held, past, getting>>
Trying == {c \in DOMAIN cs : cs[c].st = "try"}
Try(c, cls, ok, at, onloop) ==
  /\ onloop /\ cyc # "none" /\ Live = {} /\ Trying = {}
  /\ c \in DOMAIN cs /\ cs[c].st = "sock"
  /\ cs' = [cs EXCEPT ![c] = [st |-> "try", ok |-> ok, at |-> at]]
  /\ cyc' = (IF cls = 2 THEN "none" ELSE "on")   \* a fatal error ends the attempts
  /\ UNCHANGED <<rq, retry, stopped, gone, lost, cause, fin, held, past, getting>>
Up(c, onloop) ==
  /\ onloop /\ cyc = "on" /\ c \in DOMAIN cs /\ cs[c].st = "try" /\ cs[c].ok /\ Live = {} /\ ~lost
  /\ cs' = [cs EXCEPT ![c].st = "up"] /\ cyc' = "none" /\ past' = TRUE
  /\ cause' = (IF \E i \in DOMAIN rq : rq[i].k = "del" THEN cause \cup {c} ELSE cause)
  /\ UNCHANGED <<rq, retry, stopped, gone, lost, fin, held, getting>>
Down(c, onloop) ==
  /\ onloop /\ c \in Live /\ c \in cause
  /\ cs' = [cs EXCEPT ![c].st = "ending"]
  /\ fin' = [d \in DOMAIN fin \ {c} |-> fin[d]]
  /\ UNCHANGED <<rq, retry, stopped, gone, cyc, lost, cause, held, past, getting>>
DownEnd(c) ==
  /\ c \in DOMAIN cs /\ cs[c].st = "ending" /\ cs' = [cs EXCEPT ![c].st = "down"] /\ lost' = TRUE
  /\ UNCHANGED <<rq, retry, stopped, gone, cyc, cause, fin, held, past, getting>>
Close(c) ==
  /\ c \in DOMAIN cs /\ \/ cs[c].st \in {"down", "leave"}
                        \/ cs[c].st = "try" /\ (~cs[c].ok \/ \E i \in DOMAIN rq : rq[i].k = "del")
  /\ cs' = [cs EXCEPT ![c].st = "closed"]
  /\ UNCHANGED <<rq, retry, stopped, gone, cyc, lost, cause, fin, held, past, getting>>
Cause(C) == cause' = cause \cup C /\ UNCHANGED <<rq, retry, stopped, gone, cyc, cs, lost, fin, held, past, getting>>
Fin(c) ==
  /\ c \in Live /\ \E i \in DOMAIN rq : rq[i].k = "disc"
  /\ IF c \in DOMAIN fin THEN fin[c] = "asked" ELSE TRUE
  /\ fin' = Upd(fin, c, "done")
  /\ UNCHANGED <<rq, retry, stopped, gone, cyc, cs, lost, cause, held, past, getting>>
Hold(b) == held' = b /\ UNCHANGED <<rq, retry, stopped, gone, cyc, cs, lost, cause, fin, past, getting>>
GetCall(t) == getting' = Upd(getting, t, Live) /\ UNCHANGED <<rq, retry, stopped, gone, cyc, cs, lost, cause, fin, held, past>>
(* the settled live connection, if there is one; never one that is over *)
GetRet(t, c) == /\ t \in DOMAIN getting
                /\ c >= 0 => c \in DOMAIN cs /\ cs[c].st \in {"up", "ending", "down"}
                /\ c < 0 => getting[t] \cap Live = {}
                /\ UNCHANGED cvars
Quiet(t) ==
  /\ \A i \in DOMAIN rq : rq[i].ret => rq[i].done
  /\ ~lost /\ cyc # "must"
  /\ \A c \in DOMAIN cs :
       \/ cs[c].st = "closed"
       \/ cs[c].st = "up" /\ (gone => held)
       \/ cs[c].st \in {"ending", "down"} /\ held
       \/ cs[c].st = "try" /\ cyc = "on" /\ cs[c].at + Slack >= t
  /\ \A c \in DOMAIN fin : fin[c] = "done"
  /\ UNCHANGED cvars
OneLive == Cardinality(Live) <= 1
=============================================================================
