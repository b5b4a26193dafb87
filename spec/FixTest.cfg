SPECIFICATION Spec
INVARIANT Agree
CONSTANT Steps = 12
CHECK_DEADLOCK FALSE
