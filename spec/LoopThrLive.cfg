SPECIFICATION FairSpec
CONSTANTS
 Pool = TRUE
 N = 2
 WantInit = TRUE
 MainOps = 2
 InitKinds = {"q", "quit"}
 TaskOps = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
PROPERTY StartReturns
PROPERTY DelReturns
