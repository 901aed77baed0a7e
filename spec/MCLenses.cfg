SPECIFICATION Spec
CONSTANT Fine = FALSE
INVARIANTS OneGlass AroundD AroundS FromAir Lensmaker NoGlassNoLens Focuses Afocal Fourier AroundStack
CHECK_DEADLOCK FALSE
