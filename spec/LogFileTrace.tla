----------------------------- MODULE LogFileTrace -----------------------------
EXTENDS LogFile, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<fvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ FInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ New([roll |-> E.roll, iv |-> E.iv, fl |-> E.fl, num |-> E.num, one |-> E.one = 1])
  \/ Is("Made") /\ Made
  \/ Is("Open") /\ OpenF(E.f, E.sec, E.ok = 1, E.now)
  \/ Is("AppB") /\ AppB(E.m, E.n, E.now)
  \/ Is("AppE") /\ AppE(E.m, E.now)
  \/ Is("W") /\ Write(E.f, E.m, E.ok = 1)
  \/ Is("Close") /\ CloseF(E.f, E.part)
  \/ Is("FlushE") /\ FlushE(E.k)
  \/ Is("Rm") /\ Remove(E.f, E.ok = 1)
  \/ Is("Quiet") /\ Quiet
  \/ Is("DelB") /\ DelB
  \/ Is("DelE") /\ DelE
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
