SPECIFICATION Spec
CONSTANT W = 8
INVARIANT Correct
CHECK_DEADLOCK FALSE
