------------------------------ MODULE PollImpl ------------------------------
(* Event dispatch as kanon implements it: channels with interest, result and *)
(* index; behind them the kernel's epoll table, or the vector handed to       *)
(* poll(), kept dense by moving its last entry into a removed one's place.    *)
(* Callbacks change interest, withdraw and register channels while a round is *)
(* under way.  Dispatch (P08) observes.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Ops, Rounds, Poll, Mutant
VARIABLES s, ch, must, may, wrote, inround, bad
C == INSTANCE Dispatch
mv == <<ch, must, may, wrote, inround>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
Silent == UNCHANGED <<mv, bad>>
CH == 1..N
(* ev: interest {"r","w"}; rev: results {"in","out","hup","err"}; idx: 0: none, *)
(* epoll: 1: added, poll: place in pv; ep: the kernel's table; pv: the vector  *)
Init == /\ s = [ev |-> [c \in CH |-> {}], rev |-> [c \in CH |-> {}], idx |-> [c \in CH |-> 0],
                ep |-> <<>>, pv |-> <<>>, map |-> {}, cond |-> [c \in CH |-> {"out"}], pc |-> "func", act |-> <<>>, st |-> "c", ops |-> Ops, rounds |-> Rounds]
        /\ bad = "" /\ C!DInit
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
(* UpdateChannel *)
Update(u, c) ==
  IF ~Poll THEN IF u.idx[c] = 0 THEN [u EXCEPT !.ep = Upd(@, c, u.ev[c]), !.idx[c] = 1]
                ELSE [u EXCEPT !.ep = IF Mutant = "nomod" \/ c \notin DOMAIN @ THEN @ ELSE Upd(@, c, u.ev[c])]
  ELSE IF c \notin u.map THEN [u EXCEPT !.map = @ \cup {c}, !.pv = Append(@, [c |-> c, on |-> TRUE, ev |-> u.ev[c]]), !.idx[c] = Len(u.pv) + 1]
  ELSE [u EXCEPT !.pv[u.idx[c]].on = IF Mutant = "neverback" THEN @ /\ u.ev[c] # {} ELSE u.ev[c] # {},
                 !.pv[u.idx[c]].ev = u.ev[c]]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Drop(u, c) ==
  LET v == [u EXCEPT !.rev[c] = IF Mutant = "stale" THEN @ ELSE {}] IN
  IF ~Poll THEN IF u.idx[c] = 0 THEN v ELSE [v EXCEPT !.ep = [x \in DOMAIN @ \ {c} |-> @[x]], !.idx[c] = IF Mutant = "keepindex" THEN @ ELSE 0]
  ELSE IF c \notin u.map THEN v
  ELSE LET i == u.idx[c]
           last == u.pv[Len(u.pv)]
           w == [v EXCEPT !.map = @ \ {c}, !.pv = Front([@ EXCEPT ![i] = last])] IN
       IF i = Len(u.pv) \/ Mutant = "noreindex" THEN [w EXCEPT !.idx[c] = 0] ELSE [w EXCEPT !.idx = [@ EXCEPT ![last.c] = i, ![c] = 0]]
(* what the program does, in a callback or in a task *)
Watched(c) == IF Poll THEN c \in s.map ELSE s.idx[c] # 0
Op ==
  /\ s.ops > 0 /\ s.pc \in {"func", "cb"}
  /\ \E c \in CH : LET u == [s EXCEPT !.ops = @ - 1] IN
     \/ \E k \in {"r", "w"} : s' = Update([u EXCEPT !.ev[c] = @ \cup {k}], c) /\ Obs(C!Interest(c, k, TRUE), "Interest")
     \/ \E k \in {"r", "w"} : Watched(c) /\ s' = Update([u EXCEPT !.ev[c] = @ \ {k}], c) /\ Obs(C!Interest(c, k, FALSE), "No interest")
     \/ Watched(c) /\ s' = Update([u EXCEPT !.ev[c] = {}], c) /\ Obs(C!None(c), "None")
     \* the program withdraws what it removes
     \/ Watched(c) /\ s' = [Drop(u, c) EXCEPT !.ev[c] = {}] /\ Obs(C!Remove(c), "Remove")
B(b) == IF b THEN 1 ELSE 0
K == IF Poll THEN {[c |-> s.pv[i].c, r |-> B("r" \in s.pv[i].ev), w |-> B("w" \in s.pv[i].ev)] : i \in {j \in DOMAIN s.pv : s.pv[j].on}}
     ELSE {[c |-> c, r |-> B("r" \in s.ep[c]), w |-> B("w" \in s.ep[c])] : c \in DOMAIN s.ep}
Begin == s.pc = "func" /\ s.rounds > 0 /\ s' = [s EXCEPT !.pc = "poll", !.rounds = @ - 1] /\ Obs(C!PollBegin(K), "PollBegin")
(* what becomes of the descriptors, while the loop does anything *)
World == /\ s.pc = "poll" /\ Silent /\ \E c \in CH : \E x \in SUBSET {"in", "out", "hup", "err"} : x # s.cond[c] /\ ("hup" \in x => "out" \notin x) /\ s' = [s EXCEPT !.cond[c] = x]
Res(k) == (s.cond[k.c] \cap ({"hup", "err"} \cup (IF k.r = 1 THEN {"in"} ELSE {}) \cup (IF k.w = 1 THEN {"out"} ELSE {})))
(* how the kernel reports: epoll in its ready list's order, poll in the vector's *)
Rep == {k \in K : Res(k) # {}}
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
VOrder == LET on == SelectSeq(s.pv, LAMBDA p : p.on /\ \E k \in Rep : k.c = p.c) IN [i \in DOMAIN on |-> on[i].c]
End ==
  /\ s.pc = "poll" /\ Rep # {}
  /\ \E R \in {Rep} :
     \E q \in (IF Poll THEN {VOrder} ELSE Perms({k.c : k \in R})) :
     /\ s' = [s EXCEPT !.pc = "hand", !.act = q, !.st = "c",
                       !.rev = [c \in CH |-> IF \E k \in R : k.c = c THEN Res(CHOOSE k \in R : k.c = c) ELSE @[c]]]
     /\ Obs(C!PollEnd({[c |-> k.c, r |-> B("in" \in Res(k)), w |-> B("out" \in Res(k)), h |-> B("hup" \in Res(k)), i |-> B("in" \in Res(k)), x |-> B("err" \in Res(k))] : k \in R}), "PollEnd")
After == [c |-> "x", x |-> "r", r |-> "w", w |-> "done"]
Hand ==
  /\ s.pc = "hand"
  /\ IF s.act = <<>> THEN s' = [s EXCEPT !.pc = "func"] /\ Silent
     ELSE IF s.st = "done" THEN s' = [s EXCEPT !.act = Tail(@), !.st = "c"] /\ Silent
     ELSE LET c == Head(s.act)
              due == CASE s.st = "c" -> "hup" \in s.rev[c] /\ ("in" \notin s.rev[c] \/ Mutant = "hupalways")
                       [] s.st = "x" -> "err" \in s.rev[c]
                       [] s.st = "r" -> "in" \in s.rev[c] /\ ("r" \in s.ev[c] \/ Mutant = "unasked")
                       [] s.st = "w" -> "out" \in s.rev[c] /\ "w" \in s.ev[c] /\ ~(Mutant = "either" /\ "in" \in s.rev[c]) IN
          IF due THEN s' = [s EXCEPT !.pc = "cb"] /\ Obs(C!Call(c, s.st, 0), "Call")
          ELSE s' = [s EXCEPT !.st = After[@]] /\ Silent
Back == s.pc = "cb" /\ s' = [s EXCEPT !.pc = "hand", !.st = After[@]] /\ Silent
Quiet == s.pc = "poll" /\ Rep = {} /\ Obs(C!Quiet, "Quiet") /\ UNCHANGED s
Next == Op \/ Begin \/ World \/ End \/ Hand \/ Back \/ Quiet
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
Dense == Poll => \A c \in s.map : s.idx[c] \in DOMAIN s.pv /\ s.pv[s.idx[c]].c = c
=============================================================================
