--------------------------- MODULE DispatchTrace ---------------------------
EXTENDS Dispatch, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<dvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ DInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("ER") /\ Interest(E.c, "r", TRUE)
  \/ Is("EW") /\ Interest(E.c, "w", TRUE)
  \/ Is("DR") /\ Interest(E.c, "r", FALSE)
  \/ Is("DW") /\ Interest(E.c, "w", FALSE)
  \/ Is("DA") /\ None(E.c)
  \/ Is("RM") /\ Remove(E.c)
  \/ Is("PollB") /\ PollBegin(Range(E.k))
  \/ Is("PollR") /\ PollEnd(Range(E.k))
  \/ Is("Cb") /\ Call(E.c, E.k, E.t)
  \/ Is("Quiet") /\ Quiet
  \/ Is("Exit") /\ E.fds = 0 /\ UNCHANGED dvars
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
