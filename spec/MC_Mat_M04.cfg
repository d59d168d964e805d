SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Dims <- Dims223
  MaxDim = 3
  Fams = 1
  Entries <- EntriesA
  E0 = 0
  Alphas <- AlphasB
  DMat = {"m0"}
  AMat = {"a0"}
  BMat = {}
  CMat = {"c0"}
  QMat = {}
  DVec = {"v0", "v1"}
  XVec = {"x0"}
  YVec = {"y0"}
  Ops = {"gemv", "opmulv"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected RowMajor
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
