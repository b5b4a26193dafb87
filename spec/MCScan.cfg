CONSTANTS N = 5
 KSet = {1, 2, 3}
 DSet = {1, 2, 3}
INIT Init
NEXT Next
INVARIANTS Scan Assoc
CHECK_DEADLOCK FALSE
