SPECIFICATION Spec
CONSTANTS
 CS = 3
 HeadRoom = 1
 Iov = 2
 Ops = 5
 Sizes = {1, 4}
 Kinds = {"app", "pre", "adv", "apl", "wr", "copy", "move", "shr"}
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
