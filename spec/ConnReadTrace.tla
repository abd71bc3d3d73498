--------------------------- MODULE ConnReadTrace ---------------------------
EXTENDS ConnRead, Json, IOUtils, TLC, Sequences
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<rvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ RInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("Arr") /\ Arrive(E.n)
  \/ Is("PeerFin") /\ PeerEnd
  \/ (Is("PeerRst") \/ Is("CloseCall") \/ Is("Teardown")) /\ Hard
  \/ Is("Up") /\ Up
  \/ Is("Down") /\ Down
  \/ Is("DisR") /\ DisableCall
  \/ Is("DisRet") /\ DisableRet
  \/ Is("EnR") /\ EnableCall
  \/ Is("EnRet") /\ EnableRet
  \/ Is("Msg") /\ Deliver(E.from, E.to, E.ok = 1, E.t = 0)
  \/ Is("Quiet") /\ Quiet
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
