SPECIFICATION Spec
CONSTANTS
  MaxK = 2
  Halves = {2, 3}
  OptDefects = {"halfWay"}
INVARIANTS Complete FreeIsOfThisProblem Optimal CostIsIntegral ThroughThePoints
CHECK_DEADLOCK FALSE
