SPECIFICATION FairSpec
CONSTANTS
 Pool = FALSE
 N = 1
 WantInit = TRUE
 MainOps = 3
 InitKinds = {"q", "quit"}
 TaskOps = 2
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT NoUseAfterFree
INVARIANT ContractInv
INVARIANT AllJoined
