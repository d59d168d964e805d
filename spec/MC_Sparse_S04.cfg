SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 2
  GC = 2
  MaxLoad = 0
  VLens = {0, 1, 2, 3}
  Fams = {1}
  Ops = {"mulv", "opmulv"}
  Coo = {}
  Csr = {"s0"}
  VecR = {"v0", "v1"}
  Vary = {"s0"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
