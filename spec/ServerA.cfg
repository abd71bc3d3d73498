SPECIFICATION Spec
CONSTANTS
 NL = 2
 Clients = 2
 Errs = 0
 Closes = 1
 Ends = 1
 Holds = 0
 Dels = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Registered
