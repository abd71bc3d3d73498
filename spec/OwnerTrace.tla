----------------------------- MODULE OwnerTrace -----------------------------
EXTENDS Owner, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<ovars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == tr \in 1..Len(Traces) /\ h = [i \in Slots |-> <<>>] /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
Now == h' = E.h /\ (IF "lv" \in DOMAIN E THEN E.lv = Count(E.h, "o", 1) ELSE TRUE)
Step ==
  \/ Is("Set") /\ Now /\ Set(E.b, E.w)
  \/ Is("Cpy") /\ Now /\ Copy(E.b, E.c)
  \/ Is("Mov") /\ Now /\ Move(E.b, E.c)
  \/ Is("Clr") /\ Now /\ Clear(E.b)
  \/ Is("Swp") /\ Now /\ Swap(E.b, E.c)
  \/ Is("Mod") /\ Now /\ Modify(E.b, E.w)
  \/ Is("End") /\ E.lv = 0 /\ UNCHANGED h
  \/ Is("Gone") /\ E.lk = 0 /\ UNCHANGED h
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
