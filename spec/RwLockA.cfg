SPECIFICATION Spec
CONSTANTS
 T = {1, 2, 3}
 Ops = 2
 Spurious = TRUE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Exclusive
