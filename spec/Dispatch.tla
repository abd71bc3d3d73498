----------------------------- MODULE Dispatch -----------------------------
(* Contract of event dispatch (property P08): what the kernel watches is     *)
(* what the channels are interested in, and a poll round calls back exactly  *)
(* what was reported and is still wanted.                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  ch,      \* registered channels -> [r, w]
  must,    \* callbacks this round owes: <<channel, kind>>
  may,     \* callbacks this round allows in addition
  wrote,   \* channels whose write callback ran in this round
  inround  \* between a poll's return and the next poll
dvars == <<ch, must, may, wrote, inround>>
DInit == ch = <<>> /\ must = {} /\ may = {} /\ wrote = {} /\ inround = FALSE
Range(s) == {s[i] : i \in 1..Len(s)}
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(c) == IF c \in DOMAIN ch THEN ch[c] ELSE [r |-> FALSE, w |-> FALSE]
(* interest in event k ("r"/"w") of channel c set to v *)
Interest(c, k, v) ==
  /\ ch' = Upd(ch, c, IF k = "r" THEN [Get(c) EXCEPT !.r = v] ELSE [Get(c) EXCEPT !.w = v])
  \* what is withdrawn is not owed any more; a callback is possible again if
  \* the interest returns before the round is over
  /\ IF ~v /\ <<c, k>> \in must THEN must' = must \ {<<c, k>>} /\ may' = may \cup {<<c, k>>} ELSE UNCHANGED <<must, may>>
  /\ UNCHANGED <<wrote, inround>>
None(c) ==
  /\ ch' = Upd(ch, c, [r |-> FALSE, w |-> FALSE])
  /\ LET g == {x \in must : x[1] = c} IN must' = must \ g /\ may' = may \cup g
  /\ UNCHANGED <<wrote, inround>>
Remove(c) ==
  /\ ch' = [x \in DOMAIN ch \ {c} |-> ch[x]]
  /\ must' = {x \in must : x[1] # c} /\ may' = {x \in may : x[1] # c}
  /\ UNCHANGED <<wrote, inround>>
(* k: what the kernel watches, a set of [c, r, w] *)
PollBegin(k) ==
  /\ must = {}
  /\ \A x \in k : x.c \in DOMAIN ch /\ ch[x.c] = [r |-> x.r = 1, w |-> x.w = 1]
  /\ \A c \in DOMAIN ch : (ch[c].r \/ ch[c].w) => \E x \in k : x.c = c
  /\ may' = {} /\ wrote' = {} /\ inround' = FALSE /\ UNCHANGED <<ch, must>>
(* k: what it reports, a set of [c, r, w, h, i, x] *)
PollEnd(k) ==
  /\ LET any(y) == ch[y.c].r \/ ch[y.c].w
         K == {y \in k : y.c \in DOMAIN ch}
         rd == {<<y.c, "r">> : y \in {z \in K : z.r = 1 /\ ch[z.c].r}}
         wr == {<<y.c, "w">> : y \in {z \in K : z.w = 1 /\ ch[z.c].w}}
         hu == {<<y.c, "c">> : y \in {z \in K : z.h = 1 /\ z.i = 0}}
         er == {<<y.c, "x">> : y \in {z \in K : z.x = 1}}
         idle == {y.c : y \in {z \in K : ~any(z)}}
     IN /\ must' = rd \cup wr \cup {x \in hu \cup er : x[1] \notin idle}
        /\ may' = {x \in hu \cup er : x[1] \in idle}
  /\ wrote' = {} /\ inround' = TRUE /\ UNCHANGED ch
Call(c, k, t) ==
  /\ t = 0 /\ inround
  /\ <<c, k>> \in must \cup may
  /\ k = "r" => Get(c).r /\ c \notin wrote
  /\ k = "w" => Get(c).w
  /\ must' = must \ {<<c, k>>} /\ may' = may \ {<<c, k>>}
  /\ wrote' = (IF k = "w" THEN wrote \cup {c} ELSE wrote)
  /\ UNCHANGED <<ch, inround>>
(* at rest the loop waits in a poll, having delivered everything *)
Quiet == must = {} /\ UNCHANGED dvars
=============================================================================
