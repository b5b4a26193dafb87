INIT Init
NEXT Next
INVARIANT OK
CHECK_DEADLOCK FALSE
