SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 3
  GC = 3
  MaxLoad = 0
  VLens = {}
  Fams = {1}
  Ops = {"conv"}
  Coo = {"c0"}
  Csr = {"s0"}
  VecR = {}
  Vary = {"c0"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
