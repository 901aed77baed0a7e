SPECIFICATION Spec
CONSTANT Fine = FALSE
CONSTANT TurnedEls <- SameOrder
INVARIANT AroundStack
CHECK_DEADLOCK FALSE
