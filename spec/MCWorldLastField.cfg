SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  MinH <- LastH
VIEW View
INVARIANT T08
CHECK_DEADLOCK FALSE
