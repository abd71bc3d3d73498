-------------------------- MODULE ConnNotifyTrace --------------------------
EXTENDS ConnNotify, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<nvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
             /\ NInit(Traces[tr].opt.mark, Traces[tr].opt.wc = 1)
Is(e) == E.e = e
Step ==
  \/ Is("SendCall") /\ SendCall(E.t, E.m, E.n)
  \/ Is("SendRet") /\ SendRet(E.t, E.m)
  \/ E.e \in {"ShutCall", "CloseCall", "PeerFin", "PeerRst", "Down", "Teardown"} /\ Soft
  \/ Is("W") /\ (\/ pend > 0 /\ Drain(E.n)
                 \/ /\ pend = 0 /\ E.segs # <<>> /\ E.segs[1][2] = 0
                    /\ AcceptDirect(E.segs[1][1], E.n))
  \/ Is("WErr") /\ IF E.again = 1
                   THEN IF pend > 0 THEN UNCHANGED nvars ELSE \E m \in M : AcceptDirect(m, 0)
                   ELSE Soft
  \/ Is("WC") /\ WriteComplete(E.t = 0)
  \/ Is("HW") /\ HighWater(E.n, E.t = 0)
  \/ Is("Quiet") /\ Quiet
(* acceptance by the loop is not observed when it makes no system call *)
Silent == \E m \in M : AcceptBehind(m) \/ AcceptEmpty(m)
TraceNext == /\ l <= Len(T)
             /\ \/ Step /\ l' = l + 1
                \/ Silent /\ l' = l
             /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l' THEN l' ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
