SPECIFICATION TraceSpec
CONSTANT N = 3
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
