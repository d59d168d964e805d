SPECIFICATION Spec
CONSTANTS
  Regs = {"r1", "r2", "r3"}
  MaxBlocks = 6
  Fault = "leak"
INVARIANTS OwnersAlive OneOwner NothingLost Gone
CHECK_DEADLOCK FALSE
