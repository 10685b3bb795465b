SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2, 3}
  Depth = 14
  Emit = TRUE
  Wide = TRUE
  Defects = {}
INVARIANTS SameMotion WellFormed
CHECK_DEADLOCK FALSE
