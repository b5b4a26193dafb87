CONSTANTS MaxN = 2
 GapSet = {1, 2, 3}
INIT Init
NEXT Next
INVARIANT Agrees
CHECK_DEADLOCK FALSE
