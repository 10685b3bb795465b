SPECIFICATION Spec
CONSTANTS
  Dists = {0, 1, 2, 3, 5, 9, 20, 64, 130}
  Speeds = {10, 33, 50, 100, 200, 500, 2000}
  Accs = {10, 50, 100, 400, 900}
  EstDefects = {"noFloor"}
INVARIANTS Positive NeverFasterThanAllowed Monotone RestIsNotShorter
CHECK_DEADLOCK FALSE
