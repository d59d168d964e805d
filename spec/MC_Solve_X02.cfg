SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  TriR = {}
  Sol = {"z0"}
  Rhs = {"d0", "d1", "m0", "m1", "v0", "v1", "s0", "s1"}
  Kinds = {"cd", "ct"}
  Ns = {1, 2, 3}
  Offs <- O3
  Diags <- D_chol
  Xs <- X2
INVARIANTS Sylvester Unique
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
