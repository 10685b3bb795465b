SPECIFICATION Spec
CONSTANTS
  Span = 4
  Defects = {"noBorders"}
INVARIANTS Bounds Attained AtLeastBorders
CHECK_DEADLOCK FALSE
