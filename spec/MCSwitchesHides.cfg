SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 2
  Set <- SetHides
INVARIANT ShowsWhatIsOn
CHECK_DEADLOCK FALSE
