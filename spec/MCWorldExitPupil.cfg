SPECIFICATION Spec
CONSTANTS
  Setup = "paths"
  Depth = 2
  Pupil <- ExitPupil
VIEW View
INVARIANT T09
CHECK_DEADLOCK FALSE
