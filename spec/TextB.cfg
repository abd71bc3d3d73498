SPECIFICATION Spec
CONSTANTS
 Size = 12
 K = 4
 MaxF = 9
 Ints = {0, 7, 9, 10, 120, 999}
 Mutant = "none"
INVARIANTS Inside Ended Right Whole1
PROPERTY Ends
