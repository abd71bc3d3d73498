SPECIFICATION Spec
CONSTANTS
 Foreign = {1}
 Ops = 2
 LoopOps = 1
 CbOps = 0
 Lens = {2}
 Kinds = {"send","close","shut"}
 LoopKinds = {"close"}
 Env = {"psend","pfin","prst","grant"}
 EnvOps = 2
 Win0 = 1
 Mark = 0
 WC = FALSE
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ContractInv
INVARIANT PendingMeansInterest
INVARIANT PendingAgrees
