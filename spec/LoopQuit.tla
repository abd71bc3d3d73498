----------------------------- MODULE LoopQuit -----------------------------
(* Contract of quitting an event loop (property P07).                       *)
EXTENDS Integers, FiniteSets
VARIABLES
  st,     \* "new", "running", "ended"
  req,    \* quit was requested
  open,   \* tasks being handed over, or handed over, that did not run
  owed    \* tasks that were handed over before quit was requested
qvars == <<st, req, open, owed>>
QInit == st = "new" /\ req = FALSE /\ open = {} /\ owed = {}
QueueCall(id) == open' = open \cup {id} /\ UNCHANGED <<st, req, owed>>
QueueRet(id) == owed' = (IF ~req /\ id \in open THEN owed \cup {id} ELSE owed) /\ UNCHANGED <<st, req, open>>
Exec(id) == open' = open \ {id} /\ owed' = owed \ {id} /\ UNCHANGED <<st, req>>
Quit == req' = TRUE /\ UNCHANGED <<st, open, owed>>
Start == st = "new" /\ st' = "running" /\ UNCHANGED <<req, open, owed>>
Return == st = "running" /\ req /\ owed = {} /\ st' = "ended" /\ UNCHANGED <<req, open, owed>>
(* nothing can run any more without the clock moving *)
Quiet == ~(st = "running" /\ req) /\ UNCHANGED qvars
EndedMeansAsked == st = "ended" => req /\ owed = {}
=============================================================================
