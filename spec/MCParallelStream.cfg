SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxP = 2
  Deal <- Strided
  FromStream = TRUE
INVARIANTS
  SameCollection

CHECK_DEADLOCK FALSE
