----------------------------- MODULE ServerTrace ---------------------------
EXTENDS Server, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<svars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ tr \in 1..Len(Traces) /\ SInit(Traces[tr].opt.loops) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("Arrive") /\ Arrive(E.c)
  \/ Is("Acc") /\ IF E.c >= 0 THEN Accept(E.c) ELSE AcceptErr(E.err)
  \/ Is("Up") /\ Up(E.c, E.t, E.fresh = 1)
  \/ Is("Down") /\ Down(E.c, E.t)
  \/ Is("Close") /\ Close(E.c)
  \/ Is("Cause") /\ Cause(E.c)
  \/ Is("Hold") /\ Hold(E.c)
  \/ Is("Unhold") /\ Unhold(E.c)
  \/ Is("DelCall") /\ DelCall
  \/ Is("DelRet") /\ DelRet
  \/ Is("Quiet") /\ Quiet
  \/ Is("Exit") /\ E.socks = 0 /\ E.fds = 0 /\ Exit
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
