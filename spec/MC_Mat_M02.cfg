SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Dims <- Dims223
  MaxDim = 2
  Fams = 1
  Entries <- EntriesA
  E0 = 0
  Alphas <- AlphasA
  DMat = {"m0", "m1"}
  AMat = {"a0", "a1"}
  BMat = {}
  CMat = {"c0"}
  QMat = {}
  DVec = {}
  XVec = {}
  YVec = {}
  Ops = {"addm", "subm", "opaddm", "opsubm", "scalem", "scalee", "mulsm", "opnegm"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected RowMajor
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
