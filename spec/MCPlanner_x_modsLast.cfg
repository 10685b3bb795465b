SPECIFICATION MCSpec
CONSTANTS
  Clients = {1}
  UNK <- MUnk
  NOPOS = 0
  Defects = {"modsLast"}
  Fuzz = 0
  MaxOps = 5
  MaxT = 6
  Dt = 2
  Zone = 1
  Ops = {"set", "modg", "app", "eval"}
CHECK_DEADLOCK FALSE
INVARIANTS PlanIsWhatWasAskedFor
