SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxP = 3
  Deal <- FloorBlocks
  FromStream = FALSE
INVARIANTS
  SameCollection

CHECK_DEADLOCK FALSE
