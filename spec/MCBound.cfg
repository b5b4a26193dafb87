CONSTANTS MaxOrder = 9
 Emit = TRUE
INIT Init
NEXT Next
INVARIANTS Bounded Attained Positive IsTail Linear EmitScn
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
