SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Dims <- Dims234
  MaxDim = 3
  Fams = 1
  Entries <- EntriesA
  E0 = 0
  Alphas <- AlphasC
  DMat = {"m0", "m1"}
  AMat = {"a0"}
  BMat = {"b0"}
  CMat = {}
  QMat = {"q0", "q1"}
  DVec = {}
  XVec = {}
  YVec = {}
  Ops = {"copym", "assignm", "movem", "swapm", "getm", "setm", "fillm", "diags", "diagv", "ident", "loadm"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected RowMajor
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
