SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 3
  GC = 3
  MaxLoad = 0
  VLens = {3, 4}
  Fams = {1}
  Ops = {"mulv", "opmulv"}
  Coo = {}
  Csr = {"s0"}
  VecR = {"v0", "v1"}
  Vary = {"s0"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
