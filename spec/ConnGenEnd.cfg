SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1,2}
 Ops = 2
 LoopOps = 2
 CbOps = 0
 Lens = {1,3}
 Kinds = {"send","shut","close"}
 LoopKinds = {"send","shut","close"}
 Env = {"psend","pfin","prst","grant"}
 EnvOps = 3
 Win0 = 3
 Mark = 0
 WC = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT GenPrint
