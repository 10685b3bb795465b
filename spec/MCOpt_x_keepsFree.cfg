SPECIFICATION Spec
CONSTANTS
  MaxK = 2
  Halves = {2, 3}
  OptDefects = {"keepsFree"}
INVARIANTS Complete FreeIsOfThisProblem Optimal CostIsIntegral ThroughThePoints
CHECK_DEADLOCK FALSE
