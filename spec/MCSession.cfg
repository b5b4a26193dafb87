CONSTANTS MaxCalls = 3
 NGP = 2
 NY = 2
 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Meaning CondIs EmitScn
CHECK_DEADLOCK FALSE
