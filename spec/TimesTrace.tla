----------------------------- MODULE TimesTrace -----------------------------
EXTENDS Times, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vs == <<tvars, tr, l>>
T == Traces[tr].ev
E == T[l]
Zone == Traces[tr].opt.tz
TraceInit == tr \in 1..Len(Traces) /\ t = <<<<0, 0>>, <<0, 0>>>> /\ l = 1 /\ TLCSet(tr, 1)
Is(e) == E.e = e
B == E.b
O == 3 - E.b
To(v) == t' = E.t /\ E.t = [t EXCEPT ![B] = v]
Bit(c) == IF c THEN 1 ELSE 0
Step ==
  \/ Is("Set") /\ To(E.w)
  \/ Is("Add") /\ To(Plus(t[B], Dur(E.w[1], E.w[2])))
  \/ Is("Sub") /\ To(Minus(t[B], Dur(E.w[1], E.w[2])))
  \/ Is("Plus") /\ To(Plus(t[B], t[O]))
  \/ Is("Minus") /\ To(Minus(t[B], t[O]))
  \/ Is("Neg") /\ To(Neg(t[B]))
  \/ Is("Get") /\ To(t[B]) /\ LET a == t[B] c == t[O] IN
       /\ SubSeq(E.w, 1, 8) = <<Secs(a), Millis(a), Bit(a = c), Bit(a # c), Bit(Lt(a, c)), Bit(Lt(c, a)), Bit(~Lt(c, a)), Bit(~Lt(a, c))>>
       /\ IF E.w[9] = <<>> THEN TRUE ELSE E.w[9] = Minus(a, c)     \* asked up to 10^9 seconds
  \/ Is("Form") /\ To(t[B]) /\ (t[B][1] >= 86400 /\ t[B][1] < 2147400000 =>
       LET a == Plus(t[B], <<Zone, 0>>) IN E.w = <<Shown(a, TRUE), Shown(a, FALSE), <<t[B][1], 0>>, 1>>)   \* local time, and back
  \/ Is("Gone") /\ UNCHANGED t
TraceNext == /\ l <= Len(T) /\ UNCHANGED tr
             /\ Step /\ l' = l + 1 /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_vs
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
