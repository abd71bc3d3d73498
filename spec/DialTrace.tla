----------------------------- MODULE DialTrace ----------------------------
EXTENDS Dial, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<dvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ DInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("StartCall") /\ Request(E.id, "start", E.t)
  \/ Is("StopCall") /\ Request(E.id, "stop", E.t)
  \/ Is("RestCall") /\ Request(E.id, "rest", E.t)
  \/ (Is("StartRet") \/ Is("StopRet") \/ Is("RestRet")) /\ Ret(E.id)
  \/ Is("Eff") /\ Marker(E.id)
  \/ Is("Sock") /\ Sock(E.c)
  \/ Is("Try") /\ Try(E.c, E.cls, E.ok = 1, E.at, E.now, E.t = 0)
  \/ Is("Close") /\ Close(E.c, E.now)
  \/ Is("New") /\ New(E.c, E.t = 0)
  \/ Is("Quiet") /\ Quiet(E.now)
  \/ Is("Exit") /\ E.socks = 0 /\ Exit
Must == \E i \in DOMAIN rq : Due(i)
Silent == \E i \in DOMAIN rq : (Must => Due(i)) /\ Effect(i)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ \/ ~Must /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
                \/ Silent /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
