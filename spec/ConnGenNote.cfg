SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1,2}
 Ops = 2
 LoopOps = 2
 CbOps = 0
 Lens = {1,3}
 Kinds = {"send"}
 LoopKinds = {"send"}
 Env = {"grant"}
 EnvOps = 3
 Win0 = 2
 Mark = 0
 WC = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT GenPrint
