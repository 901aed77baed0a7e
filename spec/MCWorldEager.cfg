SPECIFICATION Spec
CONSTANTS
  Setup = "edits"
  Depth = 2
  SetItems <- EagerItems
VIEW View
PROPERTY RefusedChangesNothing
CHECK_DEADLOCK FALSE
