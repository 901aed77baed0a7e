SPECIFICATION Spec
CONSTANTS
  Setup = "flips"
  Depth = 2
  SeenInside <- ForgetSeen
VIEW View
INVARIANT T13
CHECK_DEADLOCK FALSE
