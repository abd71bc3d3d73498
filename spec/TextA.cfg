SPECIFICATION Spec
CONSTANTS
 Size = 8
 K = 4
 MaxF = 5
 Ints = {0, 7, 10, 999}
 Mutant = "none"
INVARIANTS Inside Ended Right Whole1
PROPERTY Ends
