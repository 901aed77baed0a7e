SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS
  OneValue
  Show
CHECK_DEADLOCK FALSE
