INIT Init
NEXT Next
INVARIANT Agree
INVARIANT Laws
CHECK_DEADLOCK FALSE
