---------------------------- MODULE ByteBufTrace ----------------------------
EXTENDS ByteBuf, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<bvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ BInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ Becomes(q, [i \in B |-> 8], E.st)
  \/ Is("App") /\ App(E.b, E.d, E.st)
  \/ Is("Pre") /\ Pre(E.b, E.d, E.st)
  \/ Is("Adv") /\ Adv(E.b, E.n, E.st)
  \/ Is("Take") /\ TakeOut(E.b, E.n, E.d, E.st)
  \/ Is("Peek") /\ Peek(E.b, E.n, E.d, E.st)
  \/ Is("Same") /\ Same(E.st)
  \/ Is("Res") /\ Reserve(E.b, E.n, E.st)
  \/ Is("FindL") /\ Find(E.b, FindLF(q[E.b]), E.f, E.t, E.d, E.st)
  \/ Is("FindC") /\ Find(E.b, FindCRLF(q[E.b]), E.f, E.t, E.d, E.st)
  \/ Is("Swap") /\ Swap(E.st)
  \/ Is("Copy") /\ Copy(E.b, E.st)
  \/ Is("Read") /\ Read(E.b, E.d, E.n, E.err, E.av, E.st)
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED bvars   \* what the objects allocated went with them
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
