SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  MaxN = 3
  BIG = 12
  Depth = 2
  Ops = {"set", "poke", "copyp", "movep", "ext0", "extw", "loadp", "empty"}
  DTri = {}
  STri = {}
  Hes = {}
  Upp = {"u0"}
  DLow = {}
  SLow = {}
  DHer = {}
  SHer = {}
INVARIANTS TypeOK Symmetric
PROPERTIES Frame Rejected OneElement Grows ColumnIsColumn
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
