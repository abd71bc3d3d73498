SPECIFICATION Spec
CONSTANTS
 NL = 2
 Clients = 3
 Errs = 0
 Closes = 0
 Ends = 1
 Holds = 0
 Dels = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Registered
