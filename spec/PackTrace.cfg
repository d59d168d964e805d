SPECIFICATION TraceSpec
CONSTANTS
  CPLX <- TraceCplx
  DTri = {"t0", "t1", "t2"}
  STri = {"s0", "s1"}
  Hes = {"h0", "h1", "h2"}
  Upp = {"u0", "u1", "u2"}
  DLow = {"l0", "l1", "l2"}
  SLow = {"k0", "k1"}
  DHer = {"g0", "g1", "g2"}
  SHer = {"f0", "f1"}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
