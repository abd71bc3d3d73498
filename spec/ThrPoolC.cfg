SPECIFICATION Spec
CONSTANTS
 Clients = {1, 2}
 Workers = {11}
 Q = 2
 Ops = 2
 MainOps = 1
 TaskOps = 0
 Spurious = TRUE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Bounded
