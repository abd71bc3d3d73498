SPECIFICATION Spec
CONSTANTS
 Room = 4
 Extra = 3
 Ops = 4
 Sizes = {3}
 Kinds = {"app","adv","read","swap","pre"}
 Mutant = "none"
INVARIANT Conforms
INVARIANT Shape
CHECK_DEADLOCK FALSE
