SPECIFICATION Spec
CONSTANTS
 T = {1, 2, 3}
 N = 1
 Ops = 2
 Kinds = {"cd", "wait", "add 1", "aw 1", "get", "minus 2"}
 Resets = 0
 Spurious = TRUE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
