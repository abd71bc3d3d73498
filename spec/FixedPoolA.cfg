SPECIFICATION Spec
CONSTANTS
 Sz = 24
 N = {1,2}
 Ops = 7
 Ids = {1,2,3}
 Res = {1,3}
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
