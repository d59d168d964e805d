SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  TriR = {}
  Sol = {}
  Rhs = {}
  N = 2
  M = 2
  Xs <- X5
  EMIT = TRUE
INVARIANTS Possible Only SameArea
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
