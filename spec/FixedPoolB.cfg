SPECIFICATION Spec
CONSTANTS
 Sz = 24
 N = {0,1,2}
 Ops = 8
 Ids = {1,2,3,4}
 Res = {1,3,4}
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
