---------------------------- MODULE ThrPoolTrace ----------------------------
EXTENDS ThrPool, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<pvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ PInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ New(E.t, E.q)
  \/ Is("SetQ") /\ SetQ(E.q)
  \/ Is("Start") /\ Start(E.n)
  \/ Is("PushB") /\ PushB(E.t, E.k)
  \/ Is("PushE") /\ PushE(E.t, E.k)
  \/ Is("RunB") /\ RunB(E.t, E.k)
  \/ Is("RunE") /\ RunE(E.t, E.k)
  \/ Is("Q") /\ Quiet
  \/ Is("DelB") /\ DelB
  \/ Is("DelE") /\ DelE
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
