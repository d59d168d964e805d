SPECIFICATION MCSpec
CONSTANTS
  CPLX = FALSE
  EMIT = TRUE
  MaxN = 3
  BIG = 12
  Depth = 2
  Ops = {"set", "poke", "copyp", "movep", "ext0", "extw", "loadp", "empty", "getcol"}
  DTri = {}
  STri = {}
  Hes = {"h0"}
  Upp = {}
  DLow = {}
  SLow = {}
  DHer = {}
  SHer = {}
INVARIANTS TypeOK Symmetric
PROPERTIES Frame Rejected OneElement Grows ColumnIsColumn
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
