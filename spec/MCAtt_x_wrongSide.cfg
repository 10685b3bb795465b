SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Depth = 4
  Emit = FALSE
  Defects = {"wrongSide"}
CONSTRAINT DepthBound
VIEW View
INVARIANTS Rotations SameFromWithin Composes
CHECK_DEADLOCK FALSE
