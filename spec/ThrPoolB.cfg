SPECIFICATION Spec
CONSTANTS
 Clients = {1}
 Workers = {11, 12}
 Q = 2
 Ops = 1
 MainOps = 2
 TaskOps = 1
 Spurious = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Bounded
