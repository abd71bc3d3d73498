------------------------------ MODULE Arrays -------------------------------
(* Contract of the growable arrays (property P25): two reserved arrays and a  *)
(* fixed vector. An element is -1 while its value is not defined.             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  q,    \* contents of the reserved arrays
  fv,   \* what was constructed in the fixed vector
  fn    \* its size
avars == <<q, fv, fn>>
AInit == q = <<<<>>, <<>>>> /\ fv = <<>> /\ fn = 0
Match(a, s) == Len(a) = Len(s) /\ \A i \in 1..Len(a) : a[i] = -1 \/ a[i] = s[i]
Seen(s) == [i \in 1..Len(s) |-> IF s[i] < 0 THEN -1 ELSE s[i]]
Rep(n, v) == [i \in 1..n |-> v]
(* k: kind of the elements; only kind 0 may be without a value *)
New(k) == IF k = 0 THEN -1 ELSE 0
Becomes(k, nq, nf, n, st, lv, bad) ==
  /\ q' = nq /\ fv' = nf /\ fn' = n
  /\ \A i \in 1..3 : st[i].ok = 1
  /\ \A i \in 1..2 : Match(nq[i], st[i].q) /\ st[i].n = Len(nq[i])
  /\ Match(nf, st[3].q) /\ st[3].n = n
  /\ lv = (IF k = 0 THEN 0 ELSE Len(nq[1]) + Len(nq[2]) + Len(nf)) /\ bad = 0
Put(b, v) == [q EXCEPT ![b] = v]
Grow(k, b, n) == Put(b, IF n <= Len(q[b]) THEN q[b] ELSE q[b] \o Rep(n - Len(q[b]), New(k)))
Shrink(b, n) == Put(b, IF n >= Len(q[b]) THEN q[b] ELSE SubSeq(q[b], 1, n))
=============================================================================
