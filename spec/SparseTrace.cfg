SPECIFICATION TraceSpec
CONSTANTS
  CPLX <- TraceCplx
  Coo = {"c0", "c1", "c2", "c3"}
  Csr = {"s0", "s1", "s2"}
  VecR = {"v0", "v1", "v2", "v3"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
