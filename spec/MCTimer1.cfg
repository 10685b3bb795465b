SPECIFICATION Spec
CONSTANTS
  Timers = {1}
  Tags = {"a", "b"}
  Depth = 11
  Emit = FALSE
  Window = 2
  Deltas = {1, 3}
  Defects = {}
CONSTRAINT DepthBound
VIEW Bare
INVARIANTS StatsAreOfTheLog NothingInvented OwnHandles MayNotOverlap
CHECK_DEADLOCK FALSE
