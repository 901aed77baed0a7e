SPECIFICATION Spec
CONSTANTS
  Setup = "cavities"
  Depth = 2
VIEW View
INVARIANTS T01 T10 T14 T13 T16 T20 T11 T12 T07 T08 T09 T06 T15 EditedIsChained EditedFits
PROPERTIES RefusedChangesNothing EditsKeepElements
CHECK_DEADLOCK FALSE
