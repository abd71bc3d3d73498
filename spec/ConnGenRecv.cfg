SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1}
 Ops = 2
 LoopOps = 3
 CbOps = 0
 Lens = {1,3}
 Kinds = {"send","close"}
 LoopKinds = {"disr","enr","send"}
 Env = {"psend","pfin","prst"}
 EnvOps = 4
 Win0 = 50
 Mark = 0
 WC = FALSE
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT GenPrint
