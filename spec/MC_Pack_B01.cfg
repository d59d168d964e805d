SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  MaxN = 4
  BIG = 12
  Depth = 1
  Ops = {"set", "poke", "copyp", "assignp", "movep"}
  DTri = {"t0", "t1"}
  STri = {"s0", "s1"}
  Hes = {}
  Upp = {}
  DLow = {}
  SLow = {}
  DHer = {}
  SHer = {}
INVARIANTS TypeOK Symmetric
PROPERTIES Frame Rejected OneElement Grows ColumnIsColumn
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
