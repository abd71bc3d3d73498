----------------------------- MODULE TextTrace ------------------------------
EXTENDS Text, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<xvars, tr, l>>
T == Traces[tr].ev
Size == Traces[tr].opt.sz
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ t = <<<<>>, <<>>>> /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Now == t' = E.t /\ E.n = <<Len(E.t[1]), Len(E.t[2])>> /\ E.ok = 1   \* lengths agree and the texts end with a zero byte
O == 3 - E.b
Step ==
  \/ Is("Put") /\ Now /\ E.t[O] = t[O] /\ Put(t[E.b], E.a, Size, E.t[E.b])
  \/ Is("Fmt") /\ Now /\ E.t[O] = t[O] /\ Fmt(E.f, E.as, Size, E.t[E.b])      \* into a stream that was reset
  \/ Is("Rst") /\ Now /\ E.t = [t EXCEPT ![E.b] = <<>>]
  \/ Is("Mas") /\ Now /\ E.t[E.b] = t[O]
  \/ Is("Mct") /\ Now /\ E.t[O] = t[O] /\ E.t[E.b] = t[E.b]
  \/ Is("CastS") /\ E.p = Show(E.a) /\ UNCHANGED t
  \/ Is("CastI") /\ Read(E.k, E.s, E.w = 1, E.r) /\ UNCHANGED t
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED t
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
