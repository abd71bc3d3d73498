SPECIFICATION Spec
CONSTANTS
 N = 3
 Cells = 4
 Vals = {1, 2}
 Mutant = "none"
INVARIANT OwnedOnce
PROPERTY Refines
CHECK_DEADLOCK FALSE
