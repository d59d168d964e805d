SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  MaxN = 3
  BIG = 12
  Depth = 1
  Ops = {"set", "poke", "copyp", "assignp", "movep", "intolow"}
  DTri = {}
  STri = {}
  Hes = {}
  Upp = {}
  DLow = {"l0", "l1"}
  SLow = {"k0"}
  DHer = {"g0"}
  SHer = {"f0"}
INVARIANTS TypeOK Symmetric
PROPERTIES Frame Rejected OneElement Grows ColumnIsColumn
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
