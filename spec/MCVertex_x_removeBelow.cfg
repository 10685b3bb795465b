SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Depth = 5
  Emit = FALSE
  Dims = {1, 2}
  Defects = {"removeBelow"}
CONSTRAINT DepthBound
VIEW Bare
INVARIANTS LastWriteWins Typed NearIsEqualAtZero NearSymmetric
CHECK_DEADLOCK FALSE
