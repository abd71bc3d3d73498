----------------------------- MODULE TimersGen -----------------------------
(* Behaviours of Timers as scripts for the real code.                        *)
EXTENDS Timers, Json
GenNext == LoopStep \/ Tick \/ \E t \in Foreign : FSet(t) \/ FCan(t) \/ FDo(t)
GenSpec == Init /\ [][GenNext]_vars
GenPrint == (Idle /\ s.now = MaxNow /\ Resting) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
