SPECIFICATION Spec
CONSTANTS
  Setup = "files"
  Depth = 2
  LoadFrom <- SameObjects
VIEW View
INVARIANT T20
CHECK_DEADLOCK FALSE
