SPECIFICATION LiveSpec
CONSTANTS
  Clients = {1, 2}
  UNK <- MUnk
  NOPOS = 0
  Defects = {}
  Fuzz = 0
  MaxOps = 3
  MaxT = 6
  Dt = 2
  Zone = 1
  Ops = {"set", "app", "mod", "eval", "plan", "del"}
CHECK_DEADLOCK FALSE
PROPERTIES Returns Ends TakenOver
