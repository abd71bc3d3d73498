----------------------------- MODULE AsyncLogTrace -----------------------------
EXTENDS AsyncLog, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<avars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ AInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ New(E.fl)
  \/ Is("Start") /\ Start
  \/ Is("AppB") /\ AppB(E.t, E.m, E.n, E.us)
  \/ Is("AppE") /\ AppE(E.m, E.us)
  \/ Is("Notice") /\ Notice(E.k)
  \/ Is("W") /\ Write(E.m, E.ok = 1)
  \/ Is("StopB") /\ StopB
  \/ Is("StopE") /\ StopE(E.files)
  \/ Is("Quiet") /\ Quiet(E.us)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
