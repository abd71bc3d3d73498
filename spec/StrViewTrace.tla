--------------------------- MODULE StrViewTrace ----------------------------
EXTENDS StrView, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<svars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ SInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
\* both views as they look afterwards, with their size and whether they call themselves empty
To(nq) == q' = nq /\ E.st = nq /\ E.n = <<Len(nq[1]), Len(nq[2])>> /\ E.em = <<B(nq[1] = <<>>), B(nq[2] = <<>>)>>
S == q[E.b]
Put(s) == To([q EXCEPT ![E.b] = s])
Step ==
  \/ Is("Set") /\ Put(E.s)
  \/ Is("Rp") /\ E.n1 <= Len(S) /\ Put(SubSeq(S, E.n1 + 1, Len(S)))
  \/ Is("Rs") /\ E.n1 <= Len(S) /\ Put(SubSeq(S, 1, Len(S) - E.n1))
  \/ Is("Sub") /\ E.k <= Len(S) /\ Put(Sub(S, E.k, E.n1))
  \/ Is("Swap") /\ To(<<q[2], q[1]>>)
  \/ Is("Asg") /\ Put(q[3 - E.b])
  \/ Is("Rst") /\ Put(<<>>)
  \/ Is("Q") /\ E.r = Answer(E.f, S, E.v, E.k) /\ UNCHANGED q
  \/ Is("Cmp") /\ E.r = Cmp(S, E.v) /\ E.rel = Rels(E.r) /\ E.cc = Cmp(Map(Low, S), Map(Low, E.v)) /\ UNCHANGED q
  \/ Is("CmpC") /\ E.r = Cmp(S, E.v) /\ E.cc = Cmp(Map(Low, S), Map(Low, E.v)) /\ UNCHANGED q
  \/ Is("Rel") /\ E.rel = Rels(Cmp(S, E.v)) /\ UNCHANGED q
  \/ Is("Split") /\ E.r = Split(S, E.v) /\ UNCHANGED q
  \/ Is("Cpy") /\ UNCHANGED q /\ (IF E.k >= Len(S) THEN E.r = -1 ELSE E.r = Min(E.n1, Len(S) - E.k) /\ E.d = Sub(S, E.k, E.r) /\ E.ok = 1)
  \/ Is("At") /\ E.r = (IF E.k < Len(S) THEN S[E.k + 1] ELSE -1) /\ UNCHANGED q
  \/ Is("Ends") /\ E.r = <<S[1], S[Len(S)]>> /\ UNCHANGED q
  \/ Is("Case") /\ E.u = Map(Up, S) /\ E.lo = Map(Low, S) /\ UNCHANGED q
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED q
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
