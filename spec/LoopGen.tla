------------------------------ MODULE LoopGen ------------------------------
(* Behaviours of Loop as scripts for the real code.                          *)
EXTENDS Loop, Json
GenNext == LoopStep \/ Outside \/ \E t \in Foreign : FCall(t) \/ FDo(t) \/ FRet(t)
GenSpec == Init /\ [][GenNext]_vars
GenPrint == (Idle /\ (\A t \in Foreign : s.left[t] = 0) /\ s.eio = 0 /\ (Resting \/ s.pc = "end")) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
