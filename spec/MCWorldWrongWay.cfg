SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  FwdConj <- WrongWay
VIEW View
INVARIANT T11
CHECK_DEADLOCK FALSE
