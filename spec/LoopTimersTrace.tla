-------------------------- MODULE LoopTimersTrace --------------------------
EXTENDS LoopTimers, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, quit
vs == <<mvars, tr, l, quit>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ MInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ quit = FALSE /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("TCall") /\ SetCall(E.id, E.lo, E.ex = 1, E.iv)
  \/ Is("TRet") /\ SetRet(E.id, E.hi)
  \/ Is("Fire") /\ Fire(E.id, E.now, E.t = 0)
  \/ Is("FireEnd") /\ UNCHANGED mvars
  \/ Is("PollB") /\ PollBegin(E.now)
  \/ Is("PollR") /\ PollRet(E.now)
  \/ Is("CanCall") /\ UNCHANGED mvars
  \/ Is("CanRet") /\ IF E.t = 0 THEN Cancelled(E.id) ELSE UNCHANGED mvars
  \/ Is("CanEff") /\ Cancelled(E.id)
  \/ Is("StartCall") /\ Start
  \/ Is("StartRet") /\ Over
  \/ Is("QuitCall") /\ UNCHANGED mvars
  \/ Is("Quiet") /\ IF quit THEN UNCHANGED mvars ELSE Quiet(E.now)
  \/ Is("Exit") /\ UNCHANGED mvars
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
             /\ quit' = (quit \/ Is("QuitCall"))
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
