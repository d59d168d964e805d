SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Dims <- Dims223
  MaxDim = 2
  Fams = 1
  Entries <- EntriesA
  E0 = 0
  Alphas <- AlphasB
  DMat = {"m0", "m1", "m2"}
  AMat = {}
  BMat = {}
  CMat = {}
  QMat = {}
  DVec = {}
  XVec = {}
  YVec = {}
  Ops = {"gemm", "opmul"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected RowMajor
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
