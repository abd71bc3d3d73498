SPECIFICATION Spec
CONSTANTS
 Sz = 8
 PerBlock = {1,2}
 Ops = 7
 Ids = {1,2,3}
 Fails = TRUE
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
