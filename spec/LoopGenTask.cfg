SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1,2,3}
 Ops = 2
 InitOps = 1
 BodyOps = 3
 Kinds = {"q","r"}
 Ios = 2
 Mutant = "none"
 
CHECK_DEADLOCK FALSE



INVARIANT GenPrint
