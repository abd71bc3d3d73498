-------------------------- MODULE LoopThreadsTrace -------------------------
EXTENDS LoopThreads, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<pvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ PInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("StartCall") /\ StartCall(E.th, E.pool = 1, E.n, E.init = 1)
  \/ Is("Init") /\ InitCb(E.k, E.th)
  \/ Is("StartRet") /\ StartRet(E.k)
  \/ Is("Next") /\ Next(E.k)
  \/ Is("QCall") /\ Queue(E.k, E.id)
  \/ Is("QRet") /\ UNCHANGED pvars
  \/ Is("Exec") /\ Exec(E.k, E.id, E.th)
  \/ Is("QuitCall") /\ Quit(E.k)
  \/ Is("Quiet") /\ Quiet
  \/ Is("DelCall") /\ DelCall
  \/ Is("DelRet") /\ DelRet(E.live)
  \/ Is("Exit") /\ E.live = 0 /\ UNCHANGED pvars
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
