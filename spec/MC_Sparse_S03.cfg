SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 2
  GC = 2
  MaxLoad = 0
  VLens = {}
  Fams = {1}
  Ops = {"conv", "get", "set", "poke", "unit", "clear"}
  Coo = {"c0"}
  Csr = {"s0"}
  VecR = {}
  Vary = {"c0", "s0"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
