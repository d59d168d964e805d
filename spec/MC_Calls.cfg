SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Reg = {1, 2, 3, 4}
  Shared = FALSE
INVARIANTS AsAlone SourcesKept
CHECK_DEADLOCK FALSE
