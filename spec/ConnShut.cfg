SPECIFICATION Spec
CONSTANTS
 Foreign = {1,2}
 Ops = 1
 LoopOps = 1
 CbOps = 0
 Lens = {2}
 Kinds = {"send","shut"}
 LoopKinds = {"send","shut"}
 Env = {"grant"}
 EnvOps = 1
 Win0 = 1
 Mark = 0
 WC = FALSE
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ContractInv
INVARIANT PendingMeansInterest
INVARIANT PendingAgrees
