------------------------------- MODULE Dial -------------------------------
(* Contract of a connector (property P12): repeated attempts with a bounded *)
(* back-off until one succeeds, a fatal error ends them, or it is stopped.  *)
(* A request issued by another thread takes effect at some moment before    *)
(* the marker queued behind it runs; one issued on the loop's thread, before*)
(* the call returns.  Times are microseconds.                               *)
EXTENDS Integers, FiniteSets
CONSTANTS First, Cap, Slack
VARIABLES
  rq,      \* request -> [k: kind, done: took effect, ret: the call returned, t: thread, 0 is the loop's]
  ph,      \* "idle", "go" (an attempt is to be made now), "try" (in flight), "fail" (failed at once), "fatal", "wait", "conn"
  stopped,
  n,       \* failures since the attempts began, capped
  cur,     \* the attempt in flight: [c, ok, at]
  since,   \* when the wait began
  sk       \* socket -> "open", "leave" (abandoned, to be closed), "closed", "handed"
dvars == <<rq, ph, stopped, n, cur, since, sk>>
None == [c |-> -1, ok |-> FALSE, at |-> 0]
DInit == rq = <<>> /\ ph = "idle" /\ stopped = FALSE /\ n = 0 /\ cur = None /\ since = 0 /\ sk = <<>>
RECURSIVE Dbl(_, _)
Dbl(x, k) == IF k = 0 \/ x >= Cap THEN (IF x > Cap THEN Cap ELSE x) ELSE Dbl(2 * x, k - 1)
Delay(k) == Dbl(First, k)   \* the k-th wait, counting from 0
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Request(i, k, t) == /\ i \notin DOMAIN rq
                    /\ rq' = Upd(rq, i, [k |-> k, done |-> FALSE, ret |-> FALSE, t |-> t])
                    /\ UNCHANGED <<ph, stopped, n, cur, since, sk>>
Leave == IF ph = "try" THEN [sk EXCEPT ![cur.c] = "leave"] ELSE sk
StartEffect == \/ stopped /\ UNCHANGED ph
               \/ ~stopped /\ ph = "idle" /\ ph' = "go"
               \/ ~stopped /\ ph = "wait" /\ ph' \in {"wait", "go"}
               \/ ~stopped /\ ph \in {"go", "try", "fail", "conn"} /\ UNCHANGED ph
(* requests issued on the loop's thread take effect in the call; those of one thread, in order *)
Due(i) == i \in DOMAIN rq /\ rq[i].t = 0 /\ ~rq[i].done
Effect(i) ==
  /\ ~rq[i].done
  /\ \A j \in DOMAIN rq : j < i /\ rq[j].t = rq[i].t => rq[j].done
  /\ rq' = [rq EXCEPT ![i].done = TRUE]
  /\ \/ rq[i].k = "start" /\ StartEffect /\ UNCHANGED <<stopped, n, cur, since, sk>>
     \/ /\ rq[i].k = "stop" /\ stopped' = TRUE /\ sk' = Leave /\ cur' = None
        /\ ph' = (IF ph \in {"go", "try", "wait"} THEN "idle" ELSE ph) /\ UNCHANGED <<n, since>>
     \/ /\ rq[i].k = "rest" /\ stopped' = FALSE /\ sk' = Leave /\ cur' = None /\ n' = 0
        /\ ph' = "go" /\ UNCHANGED since
Ret(i) == /\ i \in DOMAIN rq /\ (rq[i].t = 0 => rq[i].done)
          /\ rq' = [rq EXCEPT ![i].ret = TRUE] /\ UNCHANGED <<ph, stopped, n, cur, since, sk>>
Marker(i) == i \in DOMAIN rq /\ rq[i].done /\ UNCHANGED dvars
(* an attempt: never two, only when due, never once stopped *)
Sock(c) == c \notin DOMAIN sk /\ sk' = Upd(sk, c, "open") /\ UNCHANGED <<rq, ph, stopped, n, cur, since>>
Try(c, cls, ok, at, t, onloop) ==
  /\ onloop /\ ~stopped /\ c \in DOMAIN sk /\ sk[c] = "open"
  /\ ph = "go" \/ (ph = "wait" /\ t + 2 >= since + Delay(n - 1))
  /\ cur' = [c |-> c, ok |-> ok, at |-> at]
  /\ ph' = CASE cls = 0 -> "try" [] cls = 1 -> "fail" [] OTHER -> "fatal"
  /\ UNCHANGED <<rq, stopped, n, since, sk>>
Close(c, t) ==
  /\ c \in DOMAIN sk /\ sk[c] \in {"open", "leave"}
  /\ sk' = [sk EXCEPT ![c] = "closed"]
  /\ \/ sk[c] = "leave" /\ UNCHANGED <<ph, n, cur, since>>
     \/ /\ sk[c] = "open" /\ cur.c = c /\ cur' = None
        /\ \/ ph = "fatal" /\ ph' = "idle" /\ UNCHANGED <<n, since>>
           \/ /\ ph = "fail" \/ (ph = "try" /\ ~cur.ok /\ t >= cur.at)
              /\ ph' = (IF stopped THEN "idle" ELSE "wait") /\ since' = t /\ n' = (IF n > 20 THEN n ELSE n + 1)
  /\ UNCHANGED <<rq, stopped>>
(* success: once per successful attempt, never once stopped *)
New(c, onloop) ==
  /\ onloop /\ ph = "try" /\ cur.c = c /\ cur.ok /\ ~stopped
  /\ ph' = "conn" /\ cur' = None /\ sk' = [sk EXCEPT ![c] = "handed"]
  /\ UNCHANGED <<rq, stopped, n, since>>
Quiet(t) ==
  /\ \A i \in DOMAIN rq : rq[i].ret => rq[i].done
  /\ ph \notin {"go", "fail", "fatal"}
  /\ ph = "try" => cur.at + Slack >= t
  /\ ph = "wait" => since + Delay(n - 1) + Slack >= t
  /\ \A c \in DOMAIN sk : sk[c] \in {"closed", "handed"} \/ (ph = "try" /\ c = cur.c)
  /\ UNCHANGED dvars
Exit == (\A c \in DOMAIN sk : sk[c] \in {"closed", "handed"}) /\ UNCHANGED dvars
=============================================================================
