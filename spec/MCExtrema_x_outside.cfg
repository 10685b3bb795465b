SPECIFICATION Spec
CONSTANTS
  Span = 4
  Defects = {"outside"}
INVARIANTS Bounds Attained AtLeastBorders
CHECK_DEADLOCK FALSE
