SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Depth = 5
  Emit = FALSE
  Wide = FALSE
  Defects = {}
CONSTRAINTS Small DepthBound
VIEW Bare
INVARIANTS MaxTimeIsSum SameMotion WellFormed SplitJoin RightOfBorder EndIsLast RangeIsPointwise
CHECK_DEADLOCK FALSE
