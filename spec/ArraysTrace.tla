---------------------------- MODULE ArraysTrace -----------------------------
EXTENDS Arrays, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<avars, tr, l>>
T == Traces[tr].ev
K == Traces[tr].opt.tk
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ AInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
To(nq) == Becomes(K, nq, fv, fn, E.st, E.lv, E.bad)
ToF(nf, n) == Becomes(K, q, nf, n, E.st, E.lv, E.bad)
O == 3 - E.b
Step ==
  \/ Is("New") /\ To(q)
  \/ Is("Ctor") /\ To(Put(E.b, Rep(E.n, New(K))))
  \/ Is("Put") /\ E.k < Len(q[E.b]) /\ To([q EXCEPT ![E.b][E.k + 1] = E.v])
  \/ Is("Fill") /\ To(Put(E.b, [i \in 1..Len(q[E.b]) |-> (E.v + i - 1) % 900]))
  \/ Is("Grow") /\ To(Grow(K, E.b, E.n))
  \/ Is("Shrink") /\ To(Shrink(E.b, E.n))
  \/ Is("Copy") /\ To(Put(E.b, q[O]))
  \/ Is("Same") /\ To(q)
  \/ Is("Mct") /\ To([q EXCEPT ![E.b] = q[O], ![O] = <<>>])
  \* an array that is assigned from is left in some valid state
  \/ Is("Mas") /\ To([q EXCEPT ![E.b] = q[O], ![O] = Seen(E.st[O].q)])
  \/ Is("Swap") /\ To([q EXCEPT ![E.b] = q[O], ![O] = q[E.b]])
  \/ Is("FNew") /\ ToF(<<>>, E.n)
  \/ Is("FCon") /\ E.k = Len(fv) /\ E.k < fn /\ ToF(Append(fv, E.v), fn)
  \/ Is("FPut") /\ E.k < Len(fv) /\ ToF([fv EXCEPT ![E.k + 1] = E.v], fn)
  \/ Is("FEnd") /\ ToF(<<>>, 0)
  \/ Is("End") /\ E.lv = 0 /\ E.bad = 0 /\ UNCHANGED avars
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED avars   \* what the objects allocated went with them
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
