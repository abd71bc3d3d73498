SPECIFICATION Spec
CONSTANTS
 N = 3
 Ops = 2
 Rounds = 2
 Poll = TRUE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Dense
