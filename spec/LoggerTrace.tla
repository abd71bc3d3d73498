----------------------------- MODULE LoggerTrace -----------------------------
EXTENDS Logger, Json, IOUtils, TLC, Sequences
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<gvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ GInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("SetLev") /\ SetLev(E.n)
  \/ Is("SetAll") /\ SetAll(E.b = 1)
  \/ Is("SetLib") /\ SetLib(E.b = 1)
  \/ Is("Begin") /\ Begin(E.t, E.n, E.l = 1)
  \/ Is("Eval") /\ Eval(E.t)
  \/ Is("Out") /\ Out(E.t, E)
  \/ Is("Flush") /\ Flush(E.t)
  \/ Is("End") /\ End(E.t)
  \/ Is("Abort") /\ Abort
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
