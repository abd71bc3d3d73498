SPECIFICATION Spec
CONSTANTS
 T = {1}
 Ops = 4
 Sizes = {1, 3}
 RollSize = 3
 Period_ = 3
 FlushIv = 1
 Num = 99
 MaxNow = 4
 Mutant = "none"
CHECK_DEADLOCK FALSE
INVARIANT Conforms
