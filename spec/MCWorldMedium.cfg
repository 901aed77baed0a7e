SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  SumMul <- NoNewMedium
VIEW View
INVARIANT EditedFits
CHECK_DEADLOCK FALSE
