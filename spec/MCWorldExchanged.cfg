SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  InvB <- Exchanged
VIEW View
INVARIANT T31
CHECK_DEADLOCK FALSE
