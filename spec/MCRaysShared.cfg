SPECIFICATION Spec
CONSTANT Depth = 2
CONSTANT LoadColl <- SharedFile
PROPERTY OnlyTheirOwn
CHECK_DEADLOCK FALSE
