--------------------------- MODULE ConnLifeTrace ---------------------------
EXTENDS ConnLife, Json, IOUtils, TLC, Sequences
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<lvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ LInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("Up") /\ Up(E.t = 0, E.hold = 1)
  \/ Is("Msg") /\ Msg(E.t = 0)
  \/ (Is("CloseCall") \/ Is("Teardown")) /\ End
  \/ (Is("PeerFin") \/ Is("PeerRst")) /\ PeerEnd
  \/ Is("DisR") /\ Reading(FALSE)
  \/ Is("EnR") /\ Reading(TRUE)
  \/ Is("WErr") /\ IF E.again = 1 THEN UNCHANGED lvars ELSE MayEnd
  \/ Is("Down") /\ Down(E.t = 0, E.st = 1)
  \/ Is("Drop") /\ Drop
  \/ Is("FdClose") /\ Close
  \/ Is("Quiet") /\ Quiet
  \/ Is("Exit") /\ Exit
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
