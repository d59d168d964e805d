SPECIFICATION TraceSpec
CONSTANTS
  CPLX <- TraceCplx
  DMat = {"m0", "m1", "m2", "m3"}
  AMat = {"a0", "a1"}
  BMat = {"b0", "b1"}
  CMat = {"c0", "c1"}
  QMat = {"q0", "q1"}
  DVec = {"v0", "v1", "v2", "v3"}
  XVec = {"x0", "x1"}
  YVec = {"y0", "y1"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
