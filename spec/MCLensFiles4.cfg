SPECIFICATION Spec
CONSTANTS MaxSurfs = 4
 MaxWaves = 3
INVARIANTS Bounded Chained Scaled Outside Padded
CHECK_DEADLOCK FALSE
