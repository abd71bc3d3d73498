---------------------------- MODULE PoolsTrace ------------------------------
EXTENDS Pools, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<pvars, tr, l>>
T == Traces[tr].ev
O == Traces[tr].opt
Sz == IF O.kind = 0 THEN O.sz ELSE 24
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ PInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Step ==
  \/ Is("New") /\ Becomes(Sz, live, E.st) /\ Init2(O.kind, O.cpb, E.fr, E.bl, E.cp, E.us) /\ Counts(E.fr, E.bl, E.cp, E.us)
  \/ Is("Mal") /\ Malloc(O.kind, Sz, E.id, E.a, E.s, E.st, E.fr, E.bl, E.cp, E.us)
  \/ Is("Free") /\ Free(O.kind, Sz, E.id, E.st, E.fr, E.bl, E.cp, E.us)
  \/ Is("Wr") /\ Write(Sz, E.id, E.s, E.st, E.fr, E.bl, E.cp, E.us)
  \/ Is("Same") /\ Same(Sz, E.st, E.fr, E.bl, E.cp, E.us)
  \/ Is("Shrink") /\ Shrink(O.kind, Sz, E.st, E.fr, E.bl, E.cp, E.us)
  \/ Is("Res") /\ Reserve(Sz, E.n, E.st, E.fr, E.bl, E.cp, E.us)
  \/ Is("Cpb") /\ SetPerBlock(Sz, E.n, E.st, E.fr, E.bl, E.cp, E.us)
  \/ Is("End") /\ E.lk = 0 /\ UNCHANGED pvars
  \/ Is("CNew") /\ Boxes(<<>>, <<>>, E.st, E.mp, E.lv, E.bad)
  \/ Is("LPut") /\ E.p <= Len(cl) /\ Boxes(InsAt(cl, E.p, E.v), cm, E.st, E.mp, E.lv, E.bad)
  \/ Is("LEra") /\ E.p < Len(cl) /\ Boxes(DelAt(cl, E.p), cm, E.st, E.mp, E.lv, E.bad)
  \/ Is("LClr") /\ Boxes(<<>>, cm, E.st, E.mp, E.lv, E.bad)
  \/ Is("MPut") /\ Boxes(cl, MapPut(cm, E.k, E.v), E.st, E.mp, E.lv, E.bad)
  \/ Is("MEra") /\ Boxes(cl, MapDel(cm, E.k), E.st, E.mp, E.lv, E.bad)
  \/ Is("CSame") /\ Boxes(cl, cm, E.st, E.mp, E.lv, E.bad)
  \/ Is("CEnd") /\ E.lv = 0 /\ E.bad = 0 /\ UNCHANGED pvars
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED pvars   \* what the objects allocated went with them
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
