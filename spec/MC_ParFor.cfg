SPECIFICATION MCSpec
CONSTANTS
  Arrays = {0, 1, 2}
  N = 3
  W = 2
  Shift = 0
  Whats = {"add", "sub", "neg", "axpy", "scale"}
INVARIANTS Right Others NeverBlocked
PROPERTIES Refines Finishes
CHECK_DEADLOCK FALSE
