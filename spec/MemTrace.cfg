SPECIFICATION TraceSpec
CONSTANTS
  Regs = {}
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
