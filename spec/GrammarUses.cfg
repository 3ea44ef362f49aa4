CONSTANTS Deep = FALSE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Uses2
CHECK_DEADLOCK FALSE
