SPECIFICATION Spec
CONSTANTS
 Tasks = {"q1","q2"}
 Timers = {"t1","t2","t3"}
 Reps = {"t2"}
 Cancels = 2
 Mutant = "none"
INVARIANT Conforms
INVARIANT Alone
CHECK_DEADLOCK FALSE
