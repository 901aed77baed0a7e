SPECIFICATION Spec
CONSTANTS
 Setup = "random"
 Depth = 3
 Count = 3
 LookAt <- Redrawn
PROPERTY SeenStays
CHECK_DEADLOCK FALSE
