SPECIFICATION Spec
CONSTANTS
 Setup = "grids"
 Depth = 0
 Count = 0
INVARIANTS Announced InBounds EndsIncluded Even UpAndDown LambertLaw
CHECK_DEADLOCK FALSE
