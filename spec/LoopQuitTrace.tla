--------------------------- MODULE LoopQuitTrace ---------------------------
EXTENDS LoopQuit, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<qvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ QInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ (Is("QCall") \/ Is("RCall")) /\ QueueCall(E.id)
  \/ (Is("QRet") \/ Is("RRet")) /\ QueueRet(E.id)
  \/ Is("Exec") /\ Exec(E.id)
  \/ Is("QuitCall") /\ Quit
  \/ Is("StartCall") /\ Start
  \/ Is("StartRet") /\ Return
  \/ Is("Quiet") /\ Quiet
  \/ Is("Exit") /\ st = "ended" /\ UNCHANGED qvars
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
