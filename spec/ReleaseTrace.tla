---------------------------- MODULE ReleaseTrace ----------------------------
EXTENDS Release, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, n
vs == <<rvars, tr, l, n>>
T == Traces[tr].ev
E == T[l]
TraceInit == RInit /\ n = 0 /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("QCall") /\ Give(<<"q", E.id>>, FALSE)
  \/ Is("RCall") /\ Give(<<"q", E.id>>, FALSE)
  \/ Is("TCall") /\ Give(<<"t", E.id>>, E.iv > 0)
  \/ Is("Exec") /\ Begin(<<"q", E.id>>)
  \/ Is("ExecEnd") /\ End(<<"q", E.id>>)
  \/ Is("Fire") /\ Begin(<<"t", E.id>>)
  \/ Is("FireEnd") /\ End(<<"t", E.id>>)
  \/ Is("CanCall") /\ Cancel(<<"t", E.id>>)
  \/ Is("CanRet") /\ IF E.t = 0 THEN Cancelled(<<"t", E.id>>) ELSE UNCHANGED rvars
  \/ Is("CanEff") /\ Cancelled(<<"t", E.id>>)
  \/ Is("Start") /\ UNCHANGED rvars
  \/ Is("PushB") /\ Give(<<"q", E.k>>, FALSE)
  \/ Is("RunB") /\ Begin(<<"q", E.k>>)
  \/ Is("RunE") /\ End(<<"q", E.k>>)
  \/ Is("Q") /\ WorkersSleep(n)
  \/ Is("DelB") /\ Destroy
  \/ Is("DelE") /\ Over
  \/ Is("Rel") /\ LetGo(<<E.k, E.id>>)
  \/ Is("Quiet") /\ Sleeps
  \/ Is("DtorCall") /\ Destroy
  \/ Is("Exit") /\ Over
TraceNext == /\ l <= Len(T) /\ Step /\ n' = (IF Is("Start") THEN E.n ELSE n) /\ l' = l + 1 /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
