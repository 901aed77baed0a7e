SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 3
  StopCands <- WidestCands
  ExitCands <- WidestCands
VIEW View
INVARIANT T07
CHECK_DEADLOCK FALSE
