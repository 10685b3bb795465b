SPECIFICATION GSpec
CONSTANTS
  Clients = {1}
  UNK <- MUnk
  NOPOS = 0
  Defects = {}
  Fuzz = 0
  MaxOps = 14
  MaxT = 99
  Dt = 2
  Zone = 1
  Ops = {"set", "set0", "app", "mod", "modg", "mods", "eval", "plan", "next"}
CHECK_DEADLOCK FALSE
INVARIANTS MCSafety
