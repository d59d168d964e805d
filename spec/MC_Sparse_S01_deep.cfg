SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 3
  GC = 3
  MaxLoad = 2
  VLens = {}
  Fams = {1}
  Ops = {"unit", "clear", "get", "set", "poke", "coo"}
  Coo = {"c0"}
  Csr = {}
  VecR = {}
  Vary = {"c0"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
