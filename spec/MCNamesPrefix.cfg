SPECIFICATION Spec
CONSTANT Find <- ByPrefix
INVARIANTS FoundHowever NotQuite OnlyByName Narrower
CHECK_DEADLOCK FALSE
