SPECIFICATION Spec
CONSTANTS
  Span = 4
  Defects = {"noZeros"}
INVARIANTS Bounds Attained AtLeastBorders
CHECK_DEADLOCK FALSE
