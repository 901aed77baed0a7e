SPECIFICATION Spec
CONSTANTS
  Setup = "cavities"
  Depth = 2
  AppendReverse <- SameWayBack
VIEW View
INVARIANT T16
CHECK_DEADLOCK FALSE
