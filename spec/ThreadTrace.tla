---------------------------- MODULE ThreadTrace ----------------------------
EXTENDS Threads, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<tvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ TInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ New(E.a, E.k, E.df, E.nm, E.ask)
  \/ Is("Put") /\ Put(E.a, E.k)
  \/ Is("StartB") /\ StartB(E.a)
  \/ Is("StartE") /\ StartE(E.a)
  \/ Is("RunB") /\ RunB(E.k, E.t, E.nm, E.ok)
  \/ Is("In") /\ In(E.k, E.t, E.nm, E.ok)
  \/ Is("RunE") /\ RunE(E.k)
  \/ Is("FnD") /\ FnD(E.k)
  \/ Is("Cell") /\ Cell(E.t, E.k, E.i, E.n)
  \/ Is("CellD") /\ CellD(E.t, E.k, E.i, E.n)
  \/ Is("JoinB") /\ JoinB(E.a)
  \/ Is("JoinE") /\ JoinE(E.a)
  \/ Is("Mov") /\ Mov(E.a, E.b)
  \/ Is("MasB") /\ MasB(E.a, E.b)
  \/ Is("MasE") /\ MasE(E.a, E.b)
  \/ Is("DelB") /\ DelB(E.a)
  \/ Is("DelE") /\ DelE(E.a)
  \/ Is("End") /\ End(E.live, E.left)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
