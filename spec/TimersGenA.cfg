SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1}
 Ops = 3
 InitOps = 1
 BodyOps = 3
 Dels = {0, 1, 2}
 Ivs = {0, 1}
 MaxNow = 7
 MinIv = 1
 Slack = 1
 Tol = 0
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT GenPrint
