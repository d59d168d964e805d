SPECIFICATION TraceSpec
CONSTANTS
  Arrays = {0, 1, 2}
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
