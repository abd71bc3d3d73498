SPECIFICATION Spec
CONSTANTS
 N = 2
 Ops = 3
 Rounds = 2
 Poll = TRUE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Dense
