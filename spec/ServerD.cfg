SPECIFICATION Spec
CONSTANTS
 NL = 2
 Clients = 3
 Errs = 1
 Closes = 1
 Ends = 1
 Holds = 1
 Dels = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Registered
