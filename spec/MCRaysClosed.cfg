SPECIFICATION Spec
CONSTANT Depth = 2
CONSTANT HistCount <- ClosedBins
INVARIANT CountedOnce
CHECK_DEADLOCK FALSE
