SPECIFICATION Spec
CONSTANTS
 Foreign = {1}
 Ops = 1
 InitOps = 1
 BodyOps = 1
 Dels = {0, 1}
 Ivs = {0, 1}
 MaxNow = 3
 MinIv = 1
 Slack = 1
 Tol = 0
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ActiveAgrees
INVARIANT Armed
INVARIANT NotLate
