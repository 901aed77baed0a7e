SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  Settle <- LaxSettle
VIEW View
INVARIANT EditedFits
CHECK_DEADLOCK FALSE
