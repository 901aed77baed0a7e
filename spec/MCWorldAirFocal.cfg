SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  EFL <- AirFocal
VIEW View
INVARIANT T12
CHECK_DEADLOCK FALSE
