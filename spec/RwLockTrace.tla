---------------------------- MODULE RwLockTrace ----------------------------
EXTENDS RwLock, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<rwvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ RwInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("Ask") /\ Ask(E.t)
  \/ Is("Got") /\ (IF E.w = 1 THEN GotW(E.t, E.v) ELSE GotR(E.t, E.v))
  \/ Is("Rel") /\ (IF E.w = 1 THEN RelW(E.t, E.v) ELSE RelR(E.t, E.v))
  \/ Is("Free") /\ Free(E.t)
  \/ Is("Q") /\ Quiet(E.left)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
