SPECIFICATION FairSpec
CONSTANTS
 Foreign = {1,2}
 Ops = 1
 InitOps = 0
 BodyOps = 1
 Kinds = {"q", "quit"}
 Ios = 1
 Mutant = "none"
 
CHECK_DEADLOCK FALSE



PROPERTY QuitReturns
PROPERTY TasksRun
