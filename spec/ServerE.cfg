SPECIFICATION Spec
CONSTANTS
 NL = 1
 Clients = 2
 Errs = 2
 Closes = 2
 Ends = 1
 Holds = 1
 Dels = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Registered
