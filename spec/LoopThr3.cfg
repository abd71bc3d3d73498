SPECIFICATION FairSpec
CONSTANTS
 Pool = TRUE
 N = 3
 WantInit = FALSE
 MainOps = 6
 InitKinds = {"q"}
 TaskOps = 2
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT NoUseAfterFree
INVARIANT ContractInv
INVARIANT AllJoined
