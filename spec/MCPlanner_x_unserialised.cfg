SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  UNK <- MUnk
  NOPOS = 0
  Defects = {"unserialised"}
  Fuzz = 0
  MaxOps = 5
  MaxT = 6
  Dt = 2
  Zone = 1
  Ops = {"set", "app", "eval", "plan"}
CHECK_DEADLOCK FALSE
INVARIANTS SeenOneGeneration
