CONSTANTS Fams = {1, 2, 3, 5}
 Seconds = {2}
 MaxWraps = 2
 MaxN = 2
 GapSet = {1, 2}
 NFlags = 3
 Emit = TRUE
 Check = TRUE
INIT Init
NEXT Next
INVARIANTS Agrees EmitScn
CHECK_DEADLOCK FALSE
