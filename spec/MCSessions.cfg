SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS NextStarts AskedOnce LouderFirst OneValue
PROPERTIES RememberedIfSaved OthersKept
CHECK_DEADLOCK FALSE
