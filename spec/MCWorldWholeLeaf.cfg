SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  LeafUpTo <- WholeLeaf
VIEW View
INVARIANT T14
CHECK_DEADLOCK FALSE
