---------------------------- MODULE ChunksTrace ----------------------------
EXTENDS Chunks, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<cvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ CInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ Becomes(q, E.st)
  \/ Is("App") /\ App(E.b, E.d, E.st)
  \/ Is("Pre") /\ Pre(E.b, E.d, E.st)
  \/ Is("Adv") /\ Adv(E.b, E.n, E.st)
  \/ Is("Take") /\ TakeOut(E.b, E.n, E.d, E.st)
  \/ Is("Peek") /\ Peek(E.b, E.n, E.d, E.st)
  \/ Is("Apl") /\ AppendList(E.b, E.st)
  \/ Is("Copy") /\ Copy(E.b, E.st)
  \/ Is("Mct") /\ MoveNew(E.b, E.n, E.st)
  \/ Is("Mas") /\ MoveAssign(E.b, E.st)
  \/ Is("Swap") /\ Swap(E.st)
  \/ Is("Same") /\ Same(E.st)
  \/ Is("Shr") /\ Shrink(E.b, E.n, E.st)
  \/ Is("Rfc") /\ ReserveFree(E.b, E.n, E.st)
  \/ Is("Write") /\ Write(E.b, E.d, E.n, E.err, E.kerr, E.st)
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED cvars   \* what the objects allocated went with them
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
