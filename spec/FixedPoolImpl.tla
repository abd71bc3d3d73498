----------------------------- MODULE FixedPoolImpl -----------------------------
(* The linear pool as kanon implements it: one array, extensions, a set of    *)
(* free places and malloc once it is used up.  Pools (P23) observes.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sz, N, Ops, Ids, Res, Mutant
VARIABLES s, live, fr, bl, cpb, us, cl, cm, bad
C == INSTANCE Pools
mv == <<live, fr, bl, cpb, us, cl, cm>>
vars == <<s, mv, bad>>
Obs(A, name) == IF ENABLED A THEN A /\ UNCHANGED bad ELSE UNCHANGED mv /\ bad' = name
(* ar: the arrays [b, n] (the first is the pool); fs: free places; out: places got from malloc; *)
(* m: place -> what its bytes hold; of: id -> place; cap: the size                               *)
Init == s = [ar |-> <<>>, fs |-> {}, out |-> {}, m |-> <<>>, of |-> <<>>, cap |-> 0, left |-> Ops] /\ C!PInit /\ bad = ""
Place(x, i) == x.b * 1000 + i * Sz
Of(x) == {Place(x, i) : i \in 0..(x.n - 1)}
All(x) == UNION {Of(x.ar[i]) : i \in 1..Len(x.ar)} \cup x.out
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
St(x) == LET d == SeqOf(DOMAIN x.of) IN
  [i \in 1..Len(d) |-> [id |-> d[i], q |-> LET a == x.of[d[i]] IN IF a \in All(x) /\ a \in DOMAIN x.m THEN C!Runs(x.m[a], Sz) ELSE <<<<-1, Sz>>>>]]
Go(x, A(_, _, _, _, _), name) == s' = [x EXCEPT !.left = @ - 1] /\ Obs(A(St(x), Cardinality(x.fs), x.cap, 0, 0), name)
New == s.ar = <<>> /\ \E n \in N : LET a == [b |-> 1, n |-> n] IN
  Go([s EXCEPT !.ar = <<a>>, !.fs = Of(a), !.cap = n], LAMBDA st, f, b, c, u : C!Becomes(Sz, live, st) /\ C!Init2(1, n, f, b, c, u) /\ C!Counts(f, b, c, u), "New")
Fresh(x) == CHOOSE a \in {k * 1000 : k \in 1..20} : (\A i \in 1..Len(x.ar) : x.ar[i].b * 1000 # a) /\ a \notin x.out
              /\ \A k \in 1..20 : k * 1000 < a => (\E i \in 1..Len(x.ar) : x.ar[i].b = k) \/ k * 1000 \in x.out
Malloc == s.ar # <<>> /\ \E id \in Ids \ DOMAIN s.of : \E a \in (IF s.fs = {} THEN {Fresh(s)} ELSE s.fs) :
  LET y == IF s.fs = {} THEN [s EXCEPT !.out = @ \cup {a}] ELSE [s EXCEPT !.fs = IF Mutant = "keepfree" THEN @ ELSE @ \ {a}]
      x == [y EXCEPT !.of = C!Add(@, id, a), !.m = C!Add(@, a, 20 * id)]
  IN Go(x, LAMBDA st, f, b, c, u : C!Malloc(1, Sz, id, a, 20 * id, st, f, b, c, u), "Malloc")
Give == \E id \in DOMAIN s.of :
  LET a == s.of[id]
      inpool == \/ a \in Of(s.ar[1]) \/ (Mutant # "extout" /\ \E i \in 2..Len(s.ar) : a \in Of(s.ar[i]))
                \/ Mutant = "outin"
      x == IF inpool THEN [s EXCEPT !.of = C!Del(@, id), !.fs = @ \cup {a}] ELSE [s EXCEPT !.of = C!Del(@, id), !.out = @ \ {a}]
  IN Go(x, LAMBDA st, f, b, c, u : C!Free(1, Sz, id, st, f, b, c, u), "Free")
Write == \E id \in DOMAIN s.of :
  LET x == [s EXCEPT !.m = [@ EXCEPT ![s.of[id]] = 7 + 20 * id]] IN Go(x, LAMBDA st, f, b, c, u : C!Write(Sz, id, 7 + 20 * id, st, f, b, c, u), "Write")
Reserve == s.ar # <<>> /\ \E n \in Res :
  LET e == [b |-> Fresh(s) \div 1000, n |-> IF Mutant = "whole" THEN n ELSE n - s.cap]
      x == IF s.cap >= n THEN s
           ELSE IF Mutant = "moved" THEN LET p == [b |-> e.b, n |-> n] IN  \* a bigger array instead: the old places are gone
                  [s EXCEPT !.ar = <<p>>, !.fs = {Place(p, i) : i \in s.cap..(n - 1)}, !.cap = n]
           ELSE [s EXCEPT !.ar = Append(@, e), !.fs = @ \cup Of(e), !.cap = n]
  IN Go(x, LAMBDA st, f, b, c, u : C!Reserve(Sz, n, st, f, b, c, u), "Reserve")
Next == s.left > 0 /\ bad = "" /\ (New \/ Malloc \/ Give \/ Write \/ Reserve)
Spec == Init /\ [][Next]_vars
Conforms == bad = ""
(* a place is free or used, never both, and free ones are the pool's *)
Shape == /\ s.fs \cap {s.of[id] : id \in DOMAIN s.of} = {}
         /\ s.fs \subseteq All(s) \ s.out
         /\ s.out \subseteq {s.of[id] : id \in DOMAIN s.of}
=============================================================================
