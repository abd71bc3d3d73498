SPECIFICATION Spec
CONSTANTS
 Foreign = {1}
 Ops = 1
 LoopOps = 2
 CbOps = 0
 Lens = {1}
 Kinds = {"send"}
 LoopKinds = {"disr","enr","close"}
 Env = {"psend","pfin","prst"}
 EnvOps = 3
 Win0 = 1
 Mark = 0
 WC = FALSE
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ContractInv
INVARIANT PendingMeansInterest
INVARIANT PendingAgrees
