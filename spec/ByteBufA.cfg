SPECIFICATION Spec
CONSTANTS
 Room = 6
 Extra = 3
 Ops = 5
 Sizes = {1,5}
 Kinds = {"app","pre","adv","shr","res"}
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
