SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 2
  Set <- SetOnwards
INVARIANT ShowsWhatIsOn
CHECK_DEADLOCK FALSE
