SPECIFICATION TraceSpec
CONSTANTS
  CPLX <- TraceCplx
  DReg = {"d0", "d1", "d2", "d3"}
  SReg = {"s0", "s1", "s2", "s3"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
