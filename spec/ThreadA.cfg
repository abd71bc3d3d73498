SPECIFICATION Spec
CONSTANTS
 Objs = {1,2}
 Fns = 2
 Ops = 5
 Uses = 1
 Mutant = "none"
INVARIANT Conforms
INVARIANT Owned
INVARIANT NoStuck
CHECK_DEADLOCK FALSE
