SPECIFICATION FairSpec
CONSTANTS
 Pool = TRUE
 N = 2
 WantInit = TRUE
 MainOps = 4
 InitKinds = {"q", "quit"}
 TaskOps = 2
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT NoUseAfterFree
INVARIANT ContractInv
INVARIANT AllJoined
