--------------------------- MODULE ConnWireTrace ---------------------------
(* Is each recorded execution of the real connection a behaviour of ConnWire? *)
EXTENDS ConnWire, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<wvars, tr, l>>
T == Traces[tr].ev
E == T[l]
TraceInit == /\ WInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tr, 1)

Is(e) == E.e = e
(* one write of the real code may complete several messages *)
RECURSIVE After(_, _, _)
After(cs, c, segs) ==
  IF segs = <<>> THEN <<cs, c>>
  ELSE LET s == Head(segs) IN
    IF \/ s[1] \notin 1..Len(cs)
       \/ s[2] # cs[s[1]].sent \/ s[3] > cs[s[1]].n
       \/ (IF c = 0 THEN cs[s[1]].dead \/ \E j \in cs[s[1]].pred : j < s[1] /\ cs[j].sent # cs[j].n /\ ~cs[j].refu
                    ELSE s[1] # c)
    THEN <<>>
    ELSE After([j \in 1..Len(cs) |-> IF j = s[1] THEN [cs[j] EXCEPT !.sent = s[3]]
                 ELSE IF j \in cs[s[1]].pred /\ cs[j].sent # cs[j].n THEN [cs[j] EXCEPT !.dead = TRUE] ELSE cs[j]],
               IF s[3] = cs[s[1]].n THEN 0 ELSE s[1], Tail(segs))
WireStep == /\ fin = 0
            /\ LET r == After(calls, cur, E.segs) IN
                 /\ r # <<>> /\ calls' = r[1] /\ cur' = r[2]
            /\ UNCHANGED <<fin, shut, must, hard>>
Step ==
  \/ Is("SendCall") /\ SendCall(E.t, E.m, E.n)
  \/ Is("SendRet") /\ SendRet(E.t, E.m)
  \/ Is("ShutCall") /\ ShutCall
  \/ Is("ShutRet") /\ ShutRet
  \/ (Is("CloseCall") \/ Is("PeerFin") \/ Is("PeerRst") \/ Is("Down") \/ Is("Teardown")) /\ Hard
  \/ Is("WErr") /\ IF E.again = 1 THEN UNCHANGED wvars ELSE Hard
  \/ Is("W") /\ WireStep
  \/ Is("Fin") /\ Fin(E.how)
  \/ Is("Quiet") /\ Quiet
  \/ E.e \in {"Up"} /\ UNCHANGED wvars
TraceNext == /\ l <= Len(T) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
             /\ TLCSet(tr, IF TLCGet(tr) < l + 1 THEN l + 1 ELSE TLCGet(tr))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == \A i \in 1..Len(Traces) :
  TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT("REJ " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================
