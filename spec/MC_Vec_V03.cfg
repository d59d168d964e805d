SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Size = 2
  MaxLen = 3
  DReg = {"d0", "d1", "d2"}
  SReg = {"s0"}
  Vals <- ValsC
  Alphas <- AlphasB
  Ops = {"add", "sub", "neg", "axpy", "dot", "mdot", "opadd", "opsub", "load"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected Mismatch Lengths
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
