SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxP = 3
  Deal <- Blocks
  FromStream = FALSE
INVARIANTS
  SameCollection
  SerialInOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
