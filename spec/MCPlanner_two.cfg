SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  UNK <- MUnk
  NOPOS = 0
  Defects = {}
  Fuzz = 0
  MaxOps = 4
  MaxT = 6
  Dt = 2
  Zone = 1
  Ops = {"set", "app", "modg", "eval", "plan", "min"}
CHECK_DEADLOCK FALSE
INVARIANTS MCSafety
