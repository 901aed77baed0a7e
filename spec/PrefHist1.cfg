SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS
  OneValue
  Show
CHECK_DEADLOCK FALSE
