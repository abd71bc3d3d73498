SPECIFICATION Spec
CONSTANTS
 First = 4
 Cap = 12
 Slack = 0
 Step = 4
 Foreign = {1, 2}
 Ops = 1
 InOps = 1
 Kinds = {"stop", "rest"}
 Tries = 2
 MaxNow = 16
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT OneTimer
