------------------------------ MODULE ConnGen ------------------------------
(* Behaviours of Conn as scripts for the real code: TLC simulates, and each  *)
(* finished behaviour prints its history (thread, operation, length, whether *)
(* the loop was idle when it began).                                         *)
EXTENDS Conn, Json
GenNext == LoopStep \/ LoopOp \/ Outside \/ \E t \in Foreign : FCall(t) \/ FDo(t) \/ FRet(t)
GenSpec == Init /\ [][GenNext]_vars
GenPrint == (Over \/ (s.dest /\ LoopIdle /\ \A t \in Foreign : s.pc[t].k = "idle" /\ s.left[t] = 0)) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
