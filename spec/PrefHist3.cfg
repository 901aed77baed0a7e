SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS
  OneValue
  Show
CHECK_DEADLOCK FALSE
