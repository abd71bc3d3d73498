SPECIFICATION Spec
CONSTANTS
 Slack = 0
 Foreign = {1, 2}
 Ops = 2
 InOps = 0
 Kinds = {"connect", "disc", "del"}
 Tries = 1
 Ends = 0
 Holds = 0
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT OneLive
