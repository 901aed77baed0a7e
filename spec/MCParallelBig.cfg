SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxP = 5
  Deal <- Strided
  FromStream = FALSE
INVARIANTS
  SameCollection
  SerialInOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
