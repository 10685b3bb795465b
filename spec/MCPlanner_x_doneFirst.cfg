SPECIFICATION MCSpec
CONSTANTS
  Clients = {1}
  UNK <- MUnk
  NOPOS = 0
  Defects = {"doneFirst"}
  Fuzz = 0
  MaxOps = 4
  MaxT = 6
  Dt = 2
  Zone = 1
  Ops = {"set", "app", "eval"}
CHECK_DEADLOCK FALSE
INVARIANTS OneGeneration
