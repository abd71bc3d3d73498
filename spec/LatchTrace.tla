----------------------------- MODULE LatchTrace -----------------------------
EXTENDS Latch, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<lvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ LInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ New(E.n)
  \/ Is("OpB") /\ OpB(E.t, E.d)
  \/ Is("OpE") /\ OpE(E.t)
  \/ Is("WaitB") /\ WaitB(E.t, E.d)
  \/ Is("WaitE") /\ WaitE(E.t)
  \/ Is("GetB") /\ GetB(E.t)
  \/ Is("GetE") /\ GetE(E.t, E.v)
  \/ Is("Reset") /\ Reset(E.n)
  \/ Is("ResetW") /\ ResetW(E.t, E.n)
  \/ Is("Q") /\ Quiet(E.left)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
