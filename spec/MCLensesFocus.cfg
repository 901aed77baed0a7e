SPECIFICATION Spec
CONSTANT Fine = FALSE
 ObjElements <- NearFocus
INVARIANTS OneGlass AroundD AroundS FromAir Lensmaker NoGlassNoLens Focuses Afocal Fourier
CHECK_DEADLOCK FALSE
