SPECIFICATION Spec
CONSTANTS MaxSurfs = 3
 MaxWaves = 3
 Waves <- KeepPadding
INVARIANTS Bounded Chained Scaled Outside Padded
CHECK_DEADLOCK FALSE
