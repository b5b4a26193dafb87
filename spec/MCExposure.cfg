CONSTANTS MaxObs = 2
 NInst = 2
 MaxT = 4
 KSet = {1}
 Emit = TRUE
 Check = TRUE
INIT Init
NEXT Next
INVARIANTS OneAtATime Agrees EmitScn
CHECK_DEADLOCK FALSE
