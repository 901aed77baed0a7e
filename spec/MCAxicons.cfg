SPECIFICATION Spec
CONSTANTS
  Setup = "axicons"
  Depth = 2
VIEW View
INVARIANTS T27 EditedIsChained EditedFits
PROPERTIES RefusedChangesNothing EditsKeepElements
CHECK_DEADLOCK FALSE
