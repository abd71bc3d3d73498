SPECIFICATION Spec
CONSTANTS
 Abc = {0, 97, 98}
 MaxS = 6
 MaxV = 3
 Mutant = "none"
INVARIANTS Right Bounded
PROPERTY Ends
