SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Size = 2
  MaxLen = 2
  DReg = {"d0", "d1"}
  SReg = {"s0", "s1"}
  Vals <- ValsB
  Alphas <- ValsC
  Ops = {"dot", "mdot", "norm2", "cross2"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected Mismatch Lengths
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
