SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  FlipLeaf <- FlipInPlace
VIEW View
INVARIANT T13
CHECK_DEADLOCK FALSE
