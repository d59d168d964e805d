SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Dims <- Dims234
  MaxDim = 2
  Fams = 9
  Entries <- EntriesB
  E0 <- EMinus2
  Alphas <- AlphasC
  DMat = {}
  AMat = {}
  BMat = {}
  CMat = {}
  QMat = {"q0", "q1"}
  DVec = {}
  XVec = {}
  YVec = {}
  Ops = {"inv"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected RowMajor
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
