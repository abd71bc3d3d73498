----------------------------- MODULE ClientTrace ---------------------------
EXTENDS Client, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<cvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ CInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("ConnectCall") /\ Request(E.id, "connect", E.t)
  \/ Is("DiscCall") /\ Request(E.id, "disc", E.t)
  \/ Is("StopCall") /\ Request(E.id, "stop", E.t)
  \/ Is("EnRCall") /\ Request(E.id, "enr", E.t)
  \/ Is("DelCall") /\ Request(E.id, "del", E.t)
  \/ (Is("ConnectRet") \/ Is("DiscRet") \/ Is("StopRet") \/ Is("EnRRet") \/ Is("DelRet")) /\ Ret(E.id)
  \/ Is("Eff") /\ Marker(E.id)
  \/ Is("Sock") /\ Sock(E.c)
  \/ Is("Try") /\ Try(E.c, E.cls, E.ok = 1, E.at, E.t = 0)
  \/ Is("Close") /\ Close(E.c)
  \/ Is("Up") /\ Up(E.c, E.t = 0)
  \/ Is("UpEnd") /\ UNCHANGED cvars
  \/ Is("Down") /\ Down(E.c, E.t = 0)
  \/ Is("DownEnd") /\ DownEnd(E.c)
  \/ Is("Fin") /\ Fin(E.c)
  \/ Is("Peer") /\ Cause({E.c})
  \/ Is("FClose") /\ Cause(DOMAIN cs)
  \/ Is("Hold") /\ Hold(TRUE)
  \/ Is("Unhold") /\ Hold(FALSE)
  \/ Is("GetCall") /\ GetCall(E.t)
  \/ Is("GetRet") /\ GetRet(E.t, E.c)
  \/ Is("Quiet") /\ Quiet(E.now)
  \/ Is("Exit") /\ E.socks = 0 /\ UNCHANGED cvars
Must == \E i \in DOMAIN rq : Due(i)
Silent == (\E i \in DOMAIN rq : (Must => Due(i)) /\ (Flag(i) \/ Effect(i))) \/ (~Must /\ Decide)
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ \/ ~Must /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
                \/ Silent /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
