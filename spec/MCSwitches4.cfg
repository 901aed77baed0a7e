SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 4
INVARIANTS ShowsWhatIsOn FollowsClicks Elements OnlyParity
PROPERTY OthersStay
CHECK_DEADLOCK FALSE
