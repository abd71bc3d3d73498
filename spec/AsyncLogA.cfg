SPECIFICATION Spec
CONSTANTS
 T = {1}
 Ops = 4
 Sizes = {1, 2}
 BufSize = 4
 Bound = 2
 Slack = 0
 Interval = 1
 MaxNow = 2
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
INVARIANT InBounds
