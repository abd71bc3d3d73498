SPECIFICATION Spec
CONSTANTS
 Abc = {0, 97, 98}
 MaxS = 4
 MaxV = 2
 Mutant = "none"
INVARIANTS Right Bounded
PROPERTY Ends
