----------------------------- MODULE ConnLife -----------------------------
(* Contract of the life of one connection (property P04).                   *)
EXTENDS Integers
VARIABLES
  up, down,  \* how often the connection was announced up / down
  cause,     \* something that ends the connection has happened
  must,      \* ... something that by itself must end it
  pmust,     \* ... something that must end it while reading is on
  off,       \* reading is switched off
  held,      \* the user still holds the connection
  closed     \* how often the descriptor was closed
lvars == <<up, down, cause, must, pmust, off, held, closed>>
LInit == up = 0 /\ down = 0 /\ cause = FALSE /\ must = FALSE /\ pmust = FALSE /\ off = FALSE /\ held = FALSE /\ closed = 0

Up(onloop, hold) == /\ up = 0 /\ closed = 0 /\ onloop
                    /\ up' = 1 /\ held' = hold /\ UNCHANGED <<down, cause, must, pmust, off, closed>>
Msg(onloop) == up = 1 /\ down = 0 /\ onloop /\ UNCHANGED lvars
End == cause' = TRUE /\ must' = TRUE /\ UNCHANGED <<up, down, pmust, off, held, closed>>
(* the peer's end is noticed by reading *)
PeerEnd == cause' = TRUE /\ pmust' = TRUE /\ UNCHANGED <<up, down, must, off, held, closed>>
Reading(on) == off' = ~on /\ UNCHANGED <<up, down, cause, must, pmust, held, closed>>
(* a failed write ends the connection only together with the failure's other signs *)
MayEnd == cause' = TRUE /\ UNCHANGED <<up, down, must, pmust, off, held, closed>>
Down(onloop, isdown) == /\ up = 1 /\ down = 0 /\ cause /\ onloop /\ isdown /\ closed = 0
                        /\ down' = 1 /\ UNCHANGED <<up, cause, must, pmust, off, held, closed>>
Drop == held' = FALSE /\ UNCHANGED <<up, down, cause, must, pmust, off, closed>>
Close == /\ closed = 0 /\ down = 1 /\ ~held
         /\ closed' = 1 /\ UNCHANGED <<up, down, cause, must, pmust, off, held>>
Quiet == /\ must \/ (pmust /\ ~off) => down = 1
         /\ down = 1 /\ ~held => closed = 1
         /\ UNCHANGED lvars
Exit == /\ up = 1 /\ down = 1 /\ closed = 1 /\ UNCHANGED lvars

UpDown == up \in 0..1 /\ down \in 0..1 /\ down <= up
CloseLast == closed <= down
=============================================================================
