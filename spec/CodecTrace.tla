----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<cvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ CInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("Conn") /\ Conn(E.c)
  \/ Is("Up") /\ Up(E.c)
  \/ Is("Frame") /\ Frame(E.c, E.m, E.n)
  \/ Is("BadFrame") /\ BadFrame(E.c)
  \/ Is("Junk") /\ Junk(E.c, E.n)
  \/ Is("Arrive") /\ Arrive(E.c, E.n)
  \/ Is("Dlv") /\ Deliver(E.c, E.m, E.n, E.ok = 1)
  \/ Is("Hard") /\ Hard(E.c)
  \/ Is("Shut") /\ Shut(E.c)
  \/ Is("Down") /\ Down(E.c)
  \/ Is("SendB") /\ SendB(E.c, E.t, E.m, E.n)
  \/ Is("SendE") /\ SendE(E.c, E.m)
  \/ Is("W") /\ Wire(E.c, E.m, E.n, E.ok = 1)
  \/ Is("Fin") /\ Fin(E.c)
  \/ Is("Quiet") /\ Quiet(E.c, E.part, E.full = 1)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
