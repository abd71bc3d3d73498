SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1,2}
 Ops = 2
 InitOps = 1
 BodyOps = 3
 Kinds = {"q","r","quit"}
 Ios = 1
 Mutant = "none"
 
CHECK_DEADLOCK FALSE



INVARIANT GenPrint
