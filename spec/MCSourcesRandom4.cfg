SPECIFICATION Spec
CONSTANTS
 Setup = "random"
 Depth = 4
 Count = 3
INVARIANTS SeenWithin OnlyWhatIsSeen
PROPERTY SeenStays
CHECK_DEADLOCK FALSE
