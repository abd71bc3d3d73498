SPECIFICATION Spec
CONSTANTS
 Clients = {1}
 Workers = {11, 12}
 Q = 1
 Ops = 3
 MainOps = 1
 TaskOps = 0
 Spurious = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Bounded
