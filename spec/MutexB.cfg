SPECIFICATION Spec
CONSTANTS
 T = {1, 2, 3}
 Ops = 2
 Kinds = {"l"}
 In = {"w", "wt", "n", "N"}
 Us = 2
 MaxNow = 4
 Spurious = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Exclusive
INVARIANT HolderRight
