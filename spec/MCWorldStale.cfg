SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  SetItems <- StaleItems
VIEW View
INVARIANT EditedIsChained
CHECK_DEADLOCK FALSE
