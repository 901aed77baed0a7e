SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS CountedOnce SlicesAreItems
PROPERTY OnlyTheirOwn
CHECK_DEADLOCK FALSE
