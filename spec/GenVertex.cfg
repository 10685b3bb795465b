SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2, 3}
  Depth = 20
  Emit = TRUE
  Dims = {1, 2, 3, 4}
  Defects = {}
INVARIANTS LastWriteWins
CHECK_DEADLOCK FALSE
