SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2, 3}
  Depth = 32
  Emit = TRUE
  Defects = {}
INVARIANTS BendsAddUp Planned Centred
CHECK_DEADLOCK FALSE
