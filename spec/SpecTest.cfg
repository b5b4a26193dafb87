INIT Init
NEXT Next
INVARIANTS CovOK IntOK RowOK
CHECK_DEADLOCK FALSE
