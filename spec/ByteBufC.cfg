SPECIFICATION Spec
CONSTANTS
 Room = 6
 Extra = 4
 Ops = 4
 Sizes = {1,5}
 Kinds = {"app","pre","adv","shr","res","read"}
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
