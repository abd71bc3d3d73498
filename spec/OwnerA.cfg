SPECIFICATION Spec
CONSTANTS
 N = 2
 Cells = 3
 Vals = {1, 2}
 Mutant = "none"
INVARIANT OwnedOnce
PROPERTY Refines
CHECK_DEADLOCK FALSE
