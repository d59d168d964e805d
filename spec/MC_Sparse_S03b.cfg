SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 2
  GC = 2
  MaxLoad = 0
  VLens = {}
  Fams = {1}
  Ops = {"copy", "assign", "move", "set"}
  Coo = {}
  Csr = {"s0", "s1"}
  VecR = {}
  Vary = {"s0", "s1"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
