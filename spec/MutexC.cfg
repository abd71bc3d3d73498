SPECIFICATION Spec
CONSTANTS
 T = {1, 2, 3}
 Ops = 2
 Kinds = {"l", "h"}
 In = {"w", "wt", "n", "N"}
 Us = 2
 MaxNow = 4
 Spurious = TRUE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT Exclusive
INVARIANT HolderRight
