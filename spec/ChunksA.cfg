SPECIFICATION Spec
CONSTANTS
 CS = 3
 HeadRoom = 1
 Iov = 2
 Ops = 4
 Sizes = {1, 4}
 Kinds = {"app", "pre", "adv", "apl", "shr"}
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
