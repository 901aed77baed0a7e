SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  Reverse <- NoReverse
VIEW View
INVARIANT T13
CHECK_DEADLOCK FALSE
