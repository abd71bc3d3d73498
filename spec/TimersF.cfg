SPECIFICATION Spec
CONSTANTS
 Foreign = {1}
 Ops = 0
 InitOps = 1
 BodyOps = 2
 Dels = {1, 2}
 Ivs = {0, 1}
 MaxNow = 4
 MinIv = 1
 Slack = 1
 Tol = 0
 Mutant = "none"
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT ActiveAgrees
INVARIANT Armed
INVARIANT NotLate
