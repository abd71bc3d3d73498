SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS First = 500000
          Cap = 30000000
          Slack = 20000
