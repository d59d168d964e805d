SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Size = 3
  MaxLen = 3
  DReg = {"d0"}
  SReg = {"s0", "s1"}
  Vals <- ValsB
  Alphas <- ValsC
  Ops = {"dot", "mdot", "norm2", "cross3", "cross3to", "crossacc"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected Mismatch Lengths
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
