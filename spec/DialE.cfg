SPECIFICATION Spec
CONSTANTS
 First = 4
 Cap = 12
 Slack = 0
 Step = 4
 Foreign = {1}
 Ops = 2
 InOps = 1
 Kinds = {"start", "stop", "rest"}
 Tries = 3
 MaxNow = 20
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT OneTimer
