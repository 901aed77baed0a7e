SPECIFICATION Spec
CONSTANT Fine = TRUE
INVARIANTS OneGlass AroundD AroundS FromAir Lensmaker NoGlassNoLens Focuses Afocal Fourier AroundStack
CHECK_DEADLOCK FALSE
