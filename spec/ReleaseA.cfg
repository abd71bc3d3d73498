SPECIFICATION Spec
CONSTANTS
 Tasks = {"q1"}
 Timers = {"t1","t2"}
 Reps = {"t2"}
 Cancels = 2
 Mutant = "none"
INVARIANT Conforms
INVARIANT Alone
CHECK_DEADLOCK FALSE
