SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 3
  GC = 2
  MaxLoad = 0
  VLens = {}
  Fams = {2}
  Ops = {"addas", "add", "sub"}
  Coo = {"c0", "c1"}
  Csr = {}
  VecR = {}
  Vary = {"c0", "c1"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
