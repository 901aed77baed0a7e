SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxP = 4
  Deal <- Strided
  FromStream = FALSE
INVARIANTS
  SameCollection
  SerialInOrder
  Show
PROPERTY Ends
CHECK_DEADLOCK FALSE
