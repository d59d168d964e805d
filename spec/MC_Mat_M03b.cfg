SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Dims <- Dims322
  MaxDim = 3
  Fams = 1
  Entries <- EntriesA
  E0 = 0
  Alphas <- AlphasB
  DMat = {"m0", "m1"}
  AMat = {"a0"}
  BMat = {"b0"}
  CMat = {"c0"}
  QMat = {}
  DVec = {}
  XVec = {}
  YVec = {}
  Ops = {"gemm", "opmul"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected RowMajor
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
