------------------------------- MODULE Latch -------------------------------
(* Contract of the count-down latch (property P21).                         *)
EXTENDS Integers, FiniteSets
VARIABLES
  up,     \* created?
  val,    \* count after the completed operations
  pend,   \* thread -> change of its operation in progress
  pass,   \* thread inside a wait -> was the count possibly zero or less since?
  look    \* thread inside a query -> <<least, greatest>> count it may see
lvars == <<up, val, pend, pass, look>>
LInit == up = FALSE /\ val = 0 /\ pend = <<>> /\ pass = <<>> /\ look = <<>>
RECURSIVE Sum(_, _, _)
Sum(f, D, neg) == IF D = {} THEN 0
  ELSE LET t == CHOOSE x \in D : TRUE
       IN (IF (f[t] < 0) = neg THEN f[t] ELSE 0) + Sum(f, D \ {t}, neg)
Lo(v, p) == v + Sum(p, DOMAIN p, TRUE)
Hi(v, p) == v + Sum(p, DOMAIN p, FALSE)
With(f, t, x) == [u \in DOMAIN f \cup {t} |-> IF u = t THEN x ELSE f[u]]
But(f, t) == [u \in DOMAIN f \ {t} |-> f[u]]
Watch(v, p) ==
  /\ pass' = [u \in DOMAIN pass |-> pass[u] \/ Lo(v, p) + (IF u \in DOMAIN p THEN p[u] ELSE 0) <= 0]
  /\ look' = [u \in DOMAIN look |-> <<IF Lo(v, p) < look[u][1] THEN Lo(v, p) ELSE look[u][1],
                                      IF Hi(v, p) > look[u][2] THEN Hi(v, p) ELSE look[u][2]>>]
New(n) == ~up /\ up' = TRUE /\ val' = n /\ UNCHANGED <<pend, pass, look>>
OpB(t, d) == /\ up /\ t \notin DOMAIN pend /\ pend' = With(pend, t, d) /\ Watch(val, pend') /\ UNCHANGED <<up, val>>
OpE(t) == /\ t \in DOMAIN pend /\ val' = val + pend[t] /\ pend' = But(pend, t) /\ UNCHANGED <<up, pass, look>>
(* d: the change the call makes before it waits; done once it waits or returns *)
WaitB(t, d) ==
  /\ up /\ t \notin DOMAIN pass
  /\ pend' = (IF d = 0 THEN pend ELSE With(pend, t, d))
  /\ look' = [u \in DOMAIN look |-> <<look[u][1], IF Hi(val, pend') > look[u][2] THEN Hi(val, pend') ELSE look[u][2]>>]
  /\ pass' = With(pass, t, Lo(val, pend') + d <= 0)
  /\ UNCHANGED <<up, val>>
(* released only by a count that reached zero *)
WaitE(t) ==
  /\ t \in DOMAIN pass /\ pass[t] /\ pass' = But(pass, t)
  /\ IF t \in DOMAIN pend THEN val' = val + pend[t] /\ pend' = But(pend, t) ELSE UNCHANGED <<val, pend>>
  /\ UNCHANGED <<up, look>>
GetB(t) == look' = With(look, t, <<Lo(val, pend), Hi(val, pend)>>) /\ UNCHANGED <<up, val, pend, pass>>
GetE(t, v) == /\ t \in DOMAIN look /\ look[t][1] <= v /\ v <= look[t][2]
              /\ look' = But(look, t) /\ UNCHANGED <<up, val, pend, pass>>
(* while all other threads are blocked or gone *)
Settled == val + Sum(pend, DOMAIN pend, FALSE) + Sum(pend, DOMAIN pend, TRUE)
Reset(n) == /\ val' = n /\ pend' = <<>> /\ pass' = [u \in DOMAIN pass |-> pass[u] \/ n <= 0] /\ UNCHANGED <<up, look>>
ResetW(t, n) == /\ val' = n /\ pend' = <<>> /\ pass' = With([u \in DOMAIN pass |-> pass[u] \/ n <= 0], t, n <= 0)
                /\ UNCHANGED <<up, look>>
(* nothing can run any more: whoever waits, waits for a positive count *)
Quiet(left) ==
  /\ DOMAIN pend \subseteq DOMAIN pass /\ look = <<>> /\ left <= Cardinality(DOMAIN pass)
  /\ (left > 0 => Settled > 0)
  /\ val' = Settled /\ pend' = <<>> /\ UNCHANGED <<up, pass, look>>
=============================================================================
