SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2, 3}
  Depth = 24
  Emit = TRUE
  Defects = {}
CHECK_DEADLOCK FALSE
