SPECIFICATION Spec
CONSTANT W = 6
INVARIANT Correct
CHECK_DEADLOCK FALSE
