SPECIFICATION GenSpec
CONSTANTS
 Foreign = {1, 2}
 Ops = 2
 InitOps = 0
 BodyOps = 4
 Dels = {0, 1, 3}
 Ivs = {0, 2}
 MaxNow = 8
 MinIv = 1
 Slack = 1
 Tol = 0
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT GenPrint
