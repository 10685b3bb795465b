SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Depth = 6
  Emit = FALSE
  Defects = {}
CONSTRAINT DepthBound
VIEW View
INVARIANTS BendsAddUp Planned Centred ReachesTarget NothingFarAway Ordered
CHECK_DEADLOCK FALSE
