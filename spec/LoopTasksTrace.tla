-------------------------- MODULE LoopTasksTrace --------------------------
EXTENDS LoopTasks, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<tvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ TInit(0..99) /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("QCall") /\ Queue(E.t, E.id)
  \/ Is("QRet") /\ UNCHANGED tvars
  \/ Is("RCall") /\ RunCall(E.t, E.id)
  \/ Is("RRet") /\ RunRet(E.t, E.id)
  \/ Is("Exec") /\ Exec(E.id, E.t = 0)
  \/ Is("ExecEnd") /\ ExecEnd(E.id)
  \/ Is("PollB") /\ Poll
  \/ Is("StartCall") /\ Start
  \/ Is("QuitCall") /\ Quit
  \/ Is("StartRet") /\ Ended
  \/ Is("Quiet") /\ Quiet
  \/ Is("Exit") /\ UNCHANGED tvars
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
