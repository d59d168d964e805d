SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  TriR = {}
  Sol = {}
  Rhs = {}
  N = 3
  M = 2
  Xs <- X2
  EMIT = TRUE
INVARIANTS Possible Only SameArea
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
