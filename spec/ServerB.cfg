SPECIFICATION Spec
CONSTANTS
 NL = 0
 Clients = 2
 Errs = 1
 Closes = 1
 Ends = 1
 Holds = 1
 Dels = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Registered
