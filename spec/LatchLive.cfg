SPECIFICATION Spec
CONSTANTS
 T = {1, 2, 3}
 N = 2
 Ops = 1
 Kinds = {"cd", "wait", "add 1", "aw 1"}
 Resets = 2
 Spurious = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
PROPERTY Released
