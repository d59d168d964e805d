SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  GR = 2
  GC = 2
  MaxLoad = 0
  VLens = {}
  Fams = {1}
  Ops = {"scale", "scalee", "muls", "neg"}
  Coo = {"c0", "c1"}
  Csr = {"s0"}
  VecR = {}
  Vary = {"c0", "s0"}
INVARIANTS TypeOK SumSize
PROPERTIES Frame Rejected OneElement SumsAreDense
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
