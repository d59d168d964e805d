SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 2
  GC = 2
  MaxLoad = 4
  VLens = {}
  Fams = {1}
  Ops = {"coo", "unit", "clear", "get", "set", "poke"}
  Coo = {"c0"}
  Csr = {}
  VecR = {}
  Vary = {"c0"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
