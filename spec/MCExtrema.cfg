SPECIFICATION Spec
CONSTANTS
  Span = 4
  Defects = {}
INVARIANTS Bounds Attained AtLeastBorders
CHECK_DEADLOCK FALSE
