SPECIFICATION Spec
CONSTANTS
 T = {1, 2}
 Ops = 2
 Sizes = {3}
 RollSize = 2
 Period_ = 2
 FlushIv = 0
 Num = 1
 MaxNow = 1
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
