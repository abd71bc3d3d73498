SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1,2,3}
 Ops = 2
 LoopOps = 2
 CbOps = 0
 Lens = {1,3}
 Kinds = {"send","shut"}
 LoopKinds = {"send","shut"}
 Env = {"grant"}
 EnvOps = 3
 Win0 = 2
 Mark = 0
 WC = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT GenPrint
