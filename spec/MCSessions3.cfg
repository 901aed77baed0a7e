SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS NextStarts AskedOnce LouderFirst OneValue
PROPERTIES RememberedIfSaved OthersKept
CHECK_DEADLOCK FALSE
