SPECIFICATION Spec
CONSTANTS
 Foreign = {1}
 Ops = 2
 LoopOps = 1
 CbOps = 1
 Lens = {0,2}
 Kinds = {"send"}
 LoopKinds = {"send"}
 Env = {"grant"}
 EnvOps = 2
 Win0 = 1
 Mark = 2
 WC = TRUE
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ContractInv
INVARIANT PendingMeansInterest
INVARIANT PendingAgrees
