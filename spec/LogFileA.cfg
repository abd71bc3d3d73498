SPECIFICATION Spec
CONSTANTS
 T = {1}
 Ops = 3
 Sizes = {1, 3}
 RollSize = 3
 Period_ = 3
 FlushIv = 0
 Num = 2
 MaxNow = 4
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
