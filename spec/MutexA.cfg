SPECIFICATION Spec
CONSTANTS
 T = {1, 2, 3}
 Ops = 2
 Kinds = {"l", "try", "h"}
 In = {"h"}
 Us = 2
 MaxNow = 0
 Spurious = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Exclusive
INVARIANT HolderRight
