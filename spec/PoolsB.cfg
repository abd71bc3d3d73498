SPECIFICATION Spec
CONSTANTS
 Sz = 4
 PerBlock = {1,3}
 Ops = 9
 Ids = {1,2,3,4}
 Fails = TRUE
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
