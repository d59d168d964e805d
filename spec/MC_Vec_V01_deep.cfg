SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  Size = 2
  MaxLen = 2
  DReg = {"d0", "d1"}
  SReg = {"s0"}
  Vals <- ValsA
  Alphas <- AlphasA
  Ops = {"add", "sub", "neg", "axpy", "scale", "opadd", "opsub", "opneg", "scaled", "mull", "mulr", "div"}
INVARIANTS TypeOK Laws
PROPERTIES Frame Rejected Mismatch Lengths
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
