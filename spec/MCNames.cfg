SPECIFICATION Spec
INVARIANTS FoundHowever NotQuite OnlyByName Narrower
CHECK_DEADLOCK FALSE
