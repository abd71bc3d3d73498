SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
 BufSize = 4194304
 Bound = 16
 Slack = 20000
