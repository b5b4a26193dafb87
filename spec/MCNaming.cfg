CONSTANTS MaxLeaves = 3
 NameSet = {"A", "B", "A_1"}
 Ops = {"sum", "prod", "scale"}
 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS NamesOK EmitScn
CHECK_DEADLOCK FALSE
