SPECIFICATION Spec
CONSTANTS
 Slack = 0
 Foreign = {1}
 Ops = 2
 InOps = 1
 Kinds = {"connect", "enr", "disc", "del"}
 Tries = 2
 Ends = 2
 Holds = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT OneLive
