SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  QThrough <- ThinQ
VIEW View
INVARIANT T15
CHECK_DEADLOCK FALSE
