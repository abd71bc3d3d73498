------------------------------ MODULE Server ------------------------------
(* Contract of a server (property P11): clients are accepted in order, dealt *)
(* to the loops in strict rotation, announced up once and down once on their *)
(* loop, and their descriptors are released exactly once; failures of accept *)
(* lose at most the client they concern; destruction ends everything.        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  nl,      \* number of I/O loops (0: the base loop serves)
  pend,    \* clients waiting to be accepted
  cs,      \* client -> [st: "acc","up","down","closed","drop", loop]
  kept,    \* accepted clients that were kept so far
  spare,   \* descriptors ran out: the next client accepted may be turned away
  cause,   \* clients with a reason to end
  held,    \* connections the user keeps
  phase    \* "run", "dying", "gone"
svars == <<nl, pend, cs, kept, spare, cause, held, phase>>
SInit(n) == /\ nl = n /\ pend = <<>> /\ cs = <<>> /\ kept = 0 /\ spare = FALSE /\ cause = {} /\ held = {} /\ phase = "run"
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
LoopFor(k) == IF nl = 0 THEN 0 ELSE (k % nl) + 1
St(c) == IF c \in DOMAIN cs THEN cs[c].st ELSE "none"

Arrive(c) == pend' = (IF c < 0 THEN pend ELSE Append(pend, c)) /\ UNCHANGED <<nl, cs, kept, spare, cause, held, phase>>
Accept(c) ==
  /\ pend # <<>> /\ c = Head(pend) /\ pend' = Tail(pend) /\ phase # "gone"
  /\ \/ /\ cs' = Upd(cs, c, [st |-> "acc", loop |-> LoopFor(kept)]) /\ kept' = kept + 1 /\ UNCHANGED spare
     \/ /\ spare /\ spare' = FALSE /\ cs' = Upd(cs, c, [st |-> "drop", loop |-> 0]) /\ UNCHANGED kept
  /\ UNCHANGED <<nl, cause, held, phase>>
EMFILE == 24
ECONNABORTED == 103
AcceptErr(e) ==
  /\ phase # "gone"
  /\ spare' = (e = EMFILE)
  /\ pend' = (IF e = ECONNABORTED /\ pend # <<>> THEN Tail(pend) ELSE pend)
  /\ UNCHANGED <<nl, cs, kept, cause, held, phase>>
Up(c, t, fresh) ==
  /\ St(c) = "acc" /\ t = cs[c].loop /\ fresh /\ phase # "gone"
  /\ cs' = [cs EXCEPT ![c].st = "up"]
  /\ UNCHANGED <<nl, pend, kept, spare, cause, held, phase>>
Down(c, t) ==
  /\ St(c) = "up" /\ t = cs[c].loop
  /\ c \in cause \/ phase = "dying"
  /\ cs' = [cs EXCEPT ![c].st = "down"]
  /\ UNCHANGED <<nl, pend, kept, spare, cause, held, phase>>
Close(c) ==
  /\ St(c) \in {"down", "drop"} /\ c \notin held
  /\ cs' = [cs EXCEPT ![c].st = "closed"]
  /\ UNCHANGED <<nl, pend, kept, spare, cause, held, phase>>
Cause(c) == cause' = cause \cup {c} /\ UNCHANGED <<nl, pend, cs, kept, spare, held, phase>>
Hold(c) == held' = held \cup {c} /\ UNCHANGED <<nl, pend, cs, kept, spare, cause, phase>>
Unhold(c) == held' = held \ {c} /\ UNCHANGED <<nl, pend, cs, kept, spare, cause, phase>>
DelCall == phase = "run" /\ phase' = "dying" /\ UNCHANGED <<nl, pend, cs, kept, spare, cause, held>>
Over(c) == cs[c].st = "closed" \/ (cs[c].st = "down" /\ c \in held)
DelRet ==
  /\ phase = "dying" /\ phase' = "gone"
  \* nothing is announced any more; with I/O loops everything has ended
  /\ \A c \in DOMAIN cs : cs[c].st \in {"down", "closed", "drop"}
  /\ UNCHANGED <<nl, pend, cs, kept, spare, cause, held>>
Quiet ==
  /\ phase # "dying"
  /\ phase = "run" => pend = <<>>
  /\ \A c \in DOMAIN cs : Over(c) \/ (phase = "run" /\ cs[c].st = "up" /\ c \notin cause)
  /\ UNCHANGED svars
Exit == phase = "gone" /\ UNCHANGED svars
=============================================================================
