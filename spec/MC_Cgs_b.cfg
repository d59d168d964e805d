SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  TriR = {}
  Sol = {}
  Rhs = {}
  N = 3
  M = 3
  Xs <- X3
  EMIT = TRUE
INVARIANTS Possible Only SameArea
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
