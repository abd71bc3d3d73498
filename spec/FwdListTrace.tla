---------------------------- MODULE FwdListTrace ----------------------------
EXTENDS FwdList, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<lvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ LInit /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
To(nq) == Becomes(nq, held, E.st, E.lv, E.bad)
Cur == q[E.l]
Step ==
  \/ Is("New") /\ To(q)
  \/ Is("Ins") /\ To(Ins(E.l, E.p, E.d))
  \/ Is("Era") /\ E.p + E.c <= Len(Cur) /\ E.r \in {-1, E.p + 1} /\ To(Era(E.l, E.p, E.c))
  \/ Is("Set") /\ To(Put(E.l, E.d))
  \/ Is("Mod") /\ E.p <= Len(Cur) /\ To([q EXCEPT ![E.l] = [@ EXCEPT ![E.p] = E.v]])
  \/ Is("Rsz") /\ To(Resize(E.l, E.c, E.v))
  \/ Is("Cpy") /\ To(Put(E.l, q[E.m]))
  \* a list that is assigned from is left in some valid state
  \/ Is("Mas") /\ To([q EXCEPT ![E.l] = q[E.m], ![E.m] = E.st[E.m].q])
  \/ Is("Mct") /\ E.z = 0 /\ To([q EXCEPT ![E.l] = q[E.m], ![E.m] = <<>>])
  \/ Is("Swp") /\ To([q EXCEPT ![E.l] = q[E.m], ![E.m] = q[E.l]])
  \/ Is("Spl") /\ To(Splice(E.l, E.m, E.p, E.f, IF E.t < 0 THEN Len(q[E.m]) + 1 ELSE E.t))
  \/ Is("Mrg") /\ To([q EXCEPT ![E.l] = Merge(q[E.l], q[E.m]), ![E.m] = <<>>])
  \/ Is("Srt") /\ To(Put(E.l, Sort(Cur)))
  \/ Is("Srg") /\ To(Put(E.l, SortDown(Cur)))
  \/ Is("Sr2") /\ LET s == E.st[E.l].q IN Sorted(s) /\ Perm(Cur, s) /\ To(Put(E.l, s))
  \/ Is("Rev") /\ To(Put(E.l, Rev(Cur)))
  \/ Is("Rem") /\ LET s == Without(Cur, Key(E.v)) IN E.c = Len(Cur) - Len(s) /\ To(Put(E.l, s))
  \/ Is("Unq") /\ LET s == Uniq(Cur) IN E.c = Len(Cur) - Len(s) /\ To(Put(E.l, s))
  \/ Is("Sbf") /\ E.r = Before(Cur, Key(E.v), E.p) /\ To(q)
  \/ Is("Cmp") /\ LET a == Keys(Cur) b == Keys(q[E.m]) IN
       /\ E.eq = B(a = b) /\ E.ne = B(a # b) /\ E.lt = B(Less(a, b)) /\ E.gt = B(Less(b, a))
       /\ E.le = B(~Less(b, a)) /\ E.ge = B(~Less(a, b)) /\ To(q)
  \/ Is("Ext") /\ E.p < Len(Cur) /\ E.v = Cur[E.p + 1]
     /\ Becomes(Era(E.l, E.p, 1), <<E.v>> \o held, E.st, E.lv, E.bad)
  \/ Is("Put") /\ held # <<>> /\ Becomes(Ins(E.l, E.p, <<held[1]>>), Tail(held), E.st, E.lv, E.bad)
  \/ Is("End") /\ E.lv = 0 /\ E.bad = 0 /\ UNCHANGED lvars
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED lvars   \* what the objects allocated went with them
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
