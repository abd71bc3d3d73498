SPECIFICATION Spec
CONSTANTS
 Foreign = {1,2}
 Ops = 1
 InitOps = 1
 BodyOps = 1
 Kinds = {"q", "r"}
 Ios = 1
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ContractInv
INVARIANT NoLostWake
