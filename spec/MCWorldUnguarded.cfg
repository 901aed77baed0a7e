SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  ThroughLeaf <- UnguardedThrough
VIEW View
INVARIANT T06
CHECK_DEADLOCK FALSE
