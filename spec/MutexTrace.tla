----------------------------- MODULE MutexTrace -----------------------------
EXTENDS Mutex, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<mvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ MInit(Traces[tr].opt.spurious # 0) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("Ask") /\ Ask(E.t)
  \/ Is("Got") /\ Got(E.t, E.v)
  \/ Is("Rel") /\ Rel(E.t, E.v)
  \/ Is("Free") /\ Free(E.t)
  \/ Is("TryB") /\ TryB(E.t)
  \/ Is("TryE") /\ TryE(E.t, E.ok = 1)
  \/ Is("Held") /\ Held(E.t, E.h = 1)
  \/ Is("WaitB") /\ WaitB(E.t, E.v, E.us, E.now)
  \/ Is("WaitE") /\ WaitE(E.t, E.v, E.to = 1, E.now)
  \/ Is("Note") /\ Note(E.t, E.all = 1)
  \/ Is("Q") /\ Quiet(E.left)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
