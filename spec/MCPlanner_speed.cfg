SPECIFICATION MCSpec
CONSTANTS
  Clients = {1}
  UNK <- MUnk
  NOPOS = 0
  Defects = {}
  Fuzz = 0
  MaxOps = 6
  MaxT = 6
  Dt = 2
  Zone = 1
  Ops = {"set", "speed", "veh", "eval", "plot", "app"}
CHECK_DEADLOCK FALSE
INVARIANTS MCSafety
