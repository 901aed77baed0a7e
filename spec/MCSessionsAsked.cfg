SPECIFICATION Spec
CONSTANTS Depth = 1  Settled <- AskedIsSaved
INVARIANTS NextStarts AskedOnce LouderFirst OneValue
PROPERTIES RememberedIfSaved OthersKept
CHECK_DEADLOCK FALSE
