SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2}
  Depth = 5
  Emit = FALSE
  Defects = {}
CONSTRAINTS Small DepthBound
VIEW Bare
INVARIANTS ValuesFollow DerivativeOfDerivative Commutes
CHECK_DEADLOCK FALSE
