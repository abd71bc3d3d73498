SPECIFICATION Spec
CONSTANTS
 Foreign = {1}
 Ops = 1
 InitOps = 0
 BodyOps = 2
 Dels = {1}
 Ivs = {1}
 MaxNow = 4
 MinIv = 1
 Slack = 1
 Tol = 0
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ActiveAgrees
INVARIANT Armed
INVARIANT NotLate
