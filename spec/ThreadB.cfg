SPECIFICATION Spec
CONSTANTS
 Objs = {1,2,3}
 Fns = 2
 Ops = 7
 Uses = 2
 Mutant = "none"
INVARIANT Conforms
INVARIANT Owned
INVARIANT NoStuck
CHECK_DEADLOCK FALSE
