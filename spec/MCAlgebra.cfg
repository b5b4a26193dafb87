CONSTANTS MaxLeaves = 2
 MaxScale = 1
 Fams = {1,2,3,4,5,6,7,8,9}
 Emit = TRUE
 Check = TRUE
 MaxDim = 6
INIT Init
NEXT Next
INVARIANTS AlgebraOK EmitScn
CHECK_DEADLOCK FALSE
