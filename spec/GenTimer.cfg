SPECIFICATION Spec
CONSTANTS
  Timers = {1, 2, 3}
  Tags = {"a", "b", "a long name"}
  Depth = 60
  Emit = TRUE
  Window = 50
  Deltas = {0, 1, 10, 500, 900, 30000}
  Defects = {}
INVARIANTS StatsAreOfTheLog
CHECK_DEADLOCK FALSE
