SPECIFICATION Spec
CONSTANTS
  None = None
  Procs = {p1, p2}
  Keys = {k1, k2}
  Vals = {1, 2}
  MaxOps = 6
  Locked = TRUE
  Atomic = TRUE
  Fresh = TRUE
INVARIANTS
  NothingLost
  ReadsAreCurrent
CHECK_DEADLOCK FALSE
