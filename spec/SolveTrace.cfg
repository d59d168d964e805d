SPECIFICATION TraceSpec
CONSTANTS
  CPLX <- TraceCplx
  TriR = {"t0", "t1", "u0", "u1"}
  Sol = {"z0", "z1", "z2", "z3"}
  Rhs = {"d0", "d1", "d2", "v0", "v1", "m0", "m1", "m2", "s0", "s1"}
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
