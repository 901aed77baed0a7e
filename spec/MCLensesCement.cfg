SPECIFICATION Spec
CONSTANT Fine = FALSE
 Doublet <- LostCement
INVARIANTS OneGlass AroundD AroundS FromAir Lensmaker NoGlassNoLens Focuses Afocal Fourier
CHECK_DEADLOCK FALSE
