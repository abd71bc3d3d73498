SPECIFICATION Spec
CONSTANTS
 First = 4
 Cap = 12
 Slack = 0
 Step = 4
 Foreign = {1}
 Ops = 1
 InOps = 0
 Kinds = {"start"}
 Tries = 6
 MaxNow = 60
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT OneTimer
