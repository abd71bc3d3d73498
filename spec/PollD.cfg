SPECIFICATION Spec
CONSTANTS
 N = 2
 Ops = 4
 Rounds = 2
 Poll = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Dense
