SPECIFICATION Spec
CONSTANTS
 Foreign = {1}
 Ops = 3
 InitOps = 1
 BodyOps = 2
 Kinds = {"q", "r", "quit"}
 Ios = 1
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ContractInv
INVARIANT NoLostWake
